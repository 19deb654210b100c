#pragma once
namespace score::singleton { template <class T> class MeyerSingleton { public: static T& GetInstance() { static T t; return t; } template <class F> static T& GetInstanceInitializedWithCallable(F&& f) { static T t{f()}; return t; } }; }
