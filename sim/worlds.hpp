#pragma once
#include "common.hpp"
namespace sim {
extern World const state_world;
extern World const session_world;
extern World const disk_world;
extern World const cli_world;
extern World const log_world;
extern World const layout_world;
extern World const gui_world;
}
