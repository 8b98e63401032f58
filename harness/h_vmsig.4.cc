#include "vmsig.hh"

void vpm::add_sigs4() {
	sigs_p<float>();
	sigs_p<std::shared_ptr<Second>>();
	sigs_r<std::int32_t>();
	sigs_r<double>();
}
