#include "vmsig.hh"

void vpm::add_sigs1() {
	sigs_p<i32>();
	sigs_p<Native*>();
	sigs_r<std::uint8_t>();
	sigs_r<std::uint64_t>();
}
