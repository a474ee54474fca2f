// The throwing macros under one of the build configurations; counts what was thrown and evaluated.
struct Thrown { int id; };
int run(int what, bool condition, int& evaluated) {   // returns the thrown id, or 0
  int thrown = 0;
#ifndef ECL_DISABLE_EXCEPTIONS
  try {
#endif
    switch (what) {
      case 0: ecl_assert_throw((++evaluated, condition), Thrown{1}); break;
      case 1: if (condition) { ecl_debug_throw(Thrown{2}); } break;
      case 2: if (condition) { ecl_throw(Thrown{3}); } break;
      case 3: if (condition) { ecl_assert_throw(!condition, Thrown{4}); } break;
      case 4: ecl_try { ++evaluated; if (condition) { ecl_throw(Thrown{5}); } } ecl_catch(...) { thrown = 105; } break;
      case 5: ecl_debug_try { ++evaluated; if (condition) { ecl_debug_throw(Thrown{6}); } } ecl_debug_catch(...) { thrown = 106; } break;
    }
#ifndef ECL_DISABLE_EXCEPTIONS
  } catch (const Thrown& t) { thrown = t.id; }
#endif
  return thrown;
}
