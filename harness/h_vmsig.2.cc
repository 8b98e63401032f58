#include "vmsig.hh"

void vpm::add_sigs2() {
	sigs_p<bool>();
	sigs_p<DaedalusSymbol*>();
	sigs_r<std::int16_t>();
	sigs_r<bool>();
}
