#include "vmsig.hh"

void vpm::add_sigs5() {
	sigs_p<std::string_view>();
	sigs_r<void>();
	sigs_r<std::uint32_t>();
	sigs_r<std::string>();
}
