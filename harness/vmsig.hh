// C20: native functions of every supported signature. The signatures are spread over several files to build in parallel.
#pragma once
#include "vmtypes.hh"

namespace vpm {
	// ================================================================ C20: signatures
	struct Seen { std::vector<std::string> args; RVal ret; int ret_inst = -1; std::vector<std::shared_ptr<DaedalusInstance>>* objs = nullptr; u32 calls = 0; };
	inline Seen seen;
	inline int seen_id(DaedalusInstance const* i) {
		if (i == nullptr) return -1;
		for (u32 k = 0; k < seen.objs->size(); ++k) if ((*seen.objs)[k].get() == i) return static_cast<int>(k);
		return -2;
	}
	inline std::string got(i32 v) { return RVal::I(v).show(); }
	inline std::string got(bool v) { return v ? "true" : "false"; }
	inline std::string got(float v) { return RVal::F(v).show(); }
	inline std::string got(std::string_view v) { return RVal::S(std::string(v)).show(); }
	inline std::string got(DaedalusFunction f) { return f.value == nullptr ? "fn-" : "fn" + f.value->name(); }
	inline std::string got(DaedalusSymbol* y) { return y == nullptr ? "sym-" : "sym" + y->name(); }
	template <class T> std::string got(std::shared_ptr<T> v) { return fmt("#%d", seen_id(v.get())); }
	inline std::string got(Native* v) { return fmt("#%d", seen_id(v)); }

	enum PC : u8 { P_INT, P_BOOL, P_FN, P_FLOAT, P_STR, P_SP, P_RAW, P_SYM, P_ANY, P_SECOND };
	template <class T> struct Pc;
	template <> struct Pc<i32> { static constexpr PC v = P_INT; };
	template <> struct Pc<bool> { static constexpr PC v = P_BOOL; };
	template <> struct Pc<DaedalusFunction> { static constexpr PC v = P_FN; };
	template <> struct Pc<float> { static constexpr PC v = P_FLOAT; };
	template <> struct Pc<std::string_view> { static constexpr PC v = P_STR; };
	template <> struct Pc<std::shared_ptr<Native>> { static constexpr PC v = P_SP; };
	template <> struct Pc<Native*> { static constexpr PC v = P_RAW; };
	template <> struct Pc<DaedalusSymbol*> { static constexpr PC v = P_SYM; };
	template <> struct Pc<std::shared_ptr<DaedalusInstance>> { static constexpr PC v = P_ANY; };
	template <> struct Pc<std::shared_ptr<Second>> { static constexpr PC v = P_SECOND; };
	inline bool accepts(PC c, u32 type) {
		switch (c) {
		case P_INT: case P_BOOL: case P_FN: return type == T_INT || type == T_FUNC;
		case P_FLOAT: return type == T_FLOAT;
		case P_STR: return type == T_STRING;
		default: return type == T_INST;
		}
	}
	enum RC : u8 { R_VOID, R_I8, R_U8, R_I16, R_U16, R_I32, R_U32, R_I64, R_U64, R_BOOL, R_FLOAT, R_DOUBLE, R_STR, R_SP };
	template <class T> struct Rc;
	#define RCS(T, V) template <> struct Rc<T> { static constexpr RC v = V; }
	RCS(void, R_VOID); RCS(std::int8_t, R_I8); RCS(std::uint8_t, R_U8); RCS(std::int16_t, R_I16); RCS(std::uint16_t, R_U16); RCS(std::int32_t, R_I32);
	RCS(std::uint32_t, R_U32); RCS(std::int64_t, R_I64); RCS(std::uint64_t, R_U64); RCS(bool, R_BOOL); RCS(float, R_FLOAT); RCS(double, R_DOUBLE);
	RCS(std::string, R_STR); RCS(std::shared_ptr<Native>, R_SP);
	inline bool returns(RC c, u32 type) {
		switch (c) {
		case R_VOID: return type == T_VOID;
		case R_FLOAT: case R_DOUBLE: return type == T_FLOAT;
		case R_STR: return type == T_STRING;
		case R_SP: return type == T_INST;
		default: return type == T_INT || type == T_FUNC;
		}
	}
	inline i64 raw_ret = 0; // the bits an integer-like function returns
	inline double raw_real = 0;
	template <class R> R give() {
		if constexpr (std::same_as<R, std::string>) return seen.ret.s;
		else if constexpr (std::same_as<R, std::shared_ptr<Native>>) return seen.ret_inst < 0 ? nullptr : std::static_pointer_cast<Native>((*seen.objs)[static_cast<u32>(seen.ret_inst)]);
		else if constexpr (std::floating_point<R>) return static_cast<R>(raw_real);
		else if constexpr (std::same_as<R, bool>) return (raw_ret & 1) != 0;
		else return static_cast<R>(raw_ret);
	}
	// what the script must see
	template <class R> RVal expect() {
		if constexpr (std::same_as<R, void>) return {};
		else if constexpr (std::same_as<R, std::string>) return RVal::S(seen.ret.s);
		else if constexpr (std::same_as<R, std::shared_ptr<Native>>) return RVal::N(seen.ret_inst);
		else if constexpr (std::floating_point<R>) return RVal::F(static_cast<float>(give<R>()));
		else return RVal::I(static_cast<i32>(static_cast<u32>(static_cast<u64>(static_cast<i64>(give<R>())))));
	}
	struct Sig {
		RC ret;
		std::vector<PC> params;
		std::function<void(DaedalusVm&, std::string const&, bool)> reg; // last: override instead of external
		std::function<RVal()> expected;
	};
	template <class R, class... P> Sig sig() {
		Sig s;
		s.ret = Rc<R>::v;
		s.params = {Pc<P>::v...};
		s.reg = [](DaedalusVm& vm, std::string const& n, bool over) {
			std::function<R(P...)> cb = [](P... a) -> R {
				++seen.calls;
				seen.args = {got(a)...};
				if constexpr (!std::same_as<R, void>) return give<R>();
			};
			if (over) vm.override_function(n, cb); else vm.register_external(n, cb);
		};
		s.expected = [] { return expect<R>(); };
		return s;
	}
	inline std::vector<Sig> sigs;
	template <class P> void sigs_p() {
		sigs.push_back(sig<i32, P>());
		sigs.push_back(sig<std::string, std::string_view, P>());
		sigs.push_back(sig<void, P, std::shared_ptr<Native>>()), sigs.push_back(sig<float, P, bool>());
		sigs.push_back(sig<std::shared_ptr<Native>, DaedalusSymbol*, P, DaedalusFunction>());
		sigs.push_back(sig<i32, P, Native*, float, P, std::string_view>());
	}
	template <class R> void sigs_r() { sigs.push_back(sig<R>()); sigs.push_back(sig<R, std::string_view, float>()); }
	void add_sigs1();
	void add_sigs2();
	void add_sigs3();
	void add_sigs4();
	void add_sigs5();
	void add_sigs6();
} // namespace vpm
