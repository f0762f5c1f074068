// Adapters between C++ lambdas and stingraykit functions.
#pragma once
#include <stingraykit/function/function.h>
#include <functional>

namespace sk {

	template < typename Sig_ > struct LambdaHolder;
	template < typename R, typename... Ts >
	struct LambdaHolder<R (Ts...)> : public stingray::function_info<R (Ts...)>
	{
		std::function<R (Ts...)> f;
		explicit LambdaHolder(const std::function<R (Ts...)>& f_) : f(f_) { }
		R operator () (Ts... args) const { return f(std::forward<Ts>(args)...); }
		std::string get_name() const { return "lambda"; }
	};

	// F<void (int)>([&](int) { ... }) is a stingray::function<void (int)>
	template < typename Sig_, typename L_ >
	stingray::function<Sig_> F(const L_& l)
	{ return stingray::function<Sig_>(LambdaHolder<Sig_>(std::function<Sig_>(l))); }

	inline stingray::function<void ()> Task(const std::function<void ()>& f)
	{ return F<void ()>(f); }
}
