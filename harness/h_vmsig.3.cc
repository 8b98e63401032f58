#include "vmsig.hh"

void vpm::add_sigs3() {
	sigs_p<DaedalusFunction>();
	sigs_p<std::shared_ptr<DaedalusInstance>>();
	sigs_r<std::uint16_t>();
	sigs_r<float>();
}
