// Helpers for the demonstrations.
#pragma once
#include <cstdio>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <memory>
#include <thread>
inline int bad = 0;
#define CHECK(x) do { if (!(x)) { printf("FAIL line %d: %s\n", __LINE__, #x); bad = 1; } } while (0)
#define EQ(a, b) do { auto a_ = (a); auto b_ = (b); if (!(a_ == b_)) { printf("FAIL line %d: %s != %s\n", __LINE__, #a, #b); bad = 1; } } while (0)
