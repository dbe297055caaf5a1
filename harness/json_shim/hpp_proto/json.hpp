// Stands in for hpp_proto/json.hpp, which needs glaze, when the codecs are tested on their own.
#pragma once
#include <cassert>
#include <charconv>
#include <cstdint>
#include <glaze/util/parse.hpp>
#include <string_view>
