#pragma once
#include "spdlog/common.h"
namespace spdlog { namespace sinks {
class null_sink_st : public sink {};
class null_sink_mt : public sink {};
} }
