// Stand-in for craftpp (not shipped in this sandbox): unit type.
#pragma once
namespace craftpp::types {
struct Unit {
    static Unit create() noexcept { return Unit{}; }
    bool operator==(const Unit&) const noexcept { return true; }
};
}
