#pragma once
#include <craftpp/detail.hpp>
