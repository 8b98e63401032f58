#include "vmsig.hh"

void vpm::add_sigs6() {
	sigs_p<std::shared_ptr<Native>>();
	sigs_r<std::int8_t>();
	sigs_r<std::int64_t>();
	sigs_r<std::shared_ptr<Native>>();
}
