#!/usr/bin/env python3
"""python3 checks/run.py <property id> [--thorough]"""
import importlib, os, sys, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import driver

if __name__ == "__main__":
    pid = sys.argv[1]
    if pid == "setup":
        driver.tool()
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex:
            for n, p in zip(driver.TUS, ex.map(driver.dump, driver.TUS)):
                print(n, p)
        sys.exit(0)
    mod = importlib.import_module("checks." + pid.lower())
    res = []
    threading.stack_size(512 * 1024 * 1024)

    def go():
        try:
            res.append(driver.main(pid, mod))
        except BaseException:
            import traceback
            traceback.print_exc()
            res.append(2)

    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 2)
