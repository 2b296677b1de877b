// instantiates the grid classes for analysis (never run)
#include <cstdint>
#include <string>
#include "arc_utilities/voxel_grid.hpp"
#include "arc_utilities/dynamic_spatial_hashed_voxel_grid.hpp"

template class VoxelGrid::VoxelGrid<float>;
template class VoxelGrid::DynamicSpatialHashedVoxelGridChunk<float>;
template class VoxelGrid::DynamicSpatialHashedVoxelGrid<float>;
