// Types shared by the monitors of the script machine.
#pragma once
#include "vmref.hh"
#include <zenkit/DaedalusVm.hh>
#include <zenkit/Logger.hh>

namespace vpm {
	using namespace vp;
	using namespace zenkit;
	struct Native : DaedalusInstance {
		i32 one = 0;
		i32 many[7] {};
		float real = 0;
		float reals[5] {};
		std::string text;
		std::string texts[4];
		i32 fn = 0;
		i32 tail = 0x5A5A5A5A;
	};
	struct Second : DaedalusInstance { i32 other = 0; };
	struct NativeFailure : std::runtime_error { using std::runtime_error::runtime_error; };
	struct StepLimit {};

} // namespace vpm
