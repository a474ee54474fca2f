// One conversion of every kind by converters that live on, in the build this is compiled for.
namespace VARIANT {
using namespace ecl;
struct Quiet { std::ostringstream sink; std::streambuf* old; Quiet() : old(std::cout.rdbuf(sink.rdbuf())) {} ~Quiet() { std::cout.rdbuf(old); } };
template <class C> std::string bytes(const C& c) { std::string s; for (size_t i = 0; i < c.size(); ++i) s += (char)c[i]; return s; }
template <class F> Done attempt(F f) {
  Done d; d.thrown = false; d.flag = NoError; Quiet q;
  try { f(d); } catch (const StandardException& e) { d.thrown = true; d.flag = e.flag(); d.value = ""; }
  return d;
}
template <class C, class F> Done judge(C& c, F f) { return attempt([&](Done& d) { d.value = f(); d.flag = c.error().flag(); }); }
template <class I, class B> struct Bytes : Subject {
  Converter<std::vector<B>, I> c; Done run(const Input& in) { std::vector<B> v(in.n, B(0x5a)); return judge(c, [&] { c(v, (I)in.i); return bytes(v); }); }
};
template <class I, class B> struct Number : Subject {
  Converter<I, std::vector<B>> c; Done run(const Input& in) { std::vector<B> v(in.s.begin(), in.s.end()); return judge(c, [&] { return std::to_string((long long)c(v)); }); }
};
template <class C> struct FamilyBytes : Subject {  // one object, all widths
  C c; typedef typename std::remove_reference<C>::type T;
  template <class V, class I> Done go(const Input& in) { V v(in.n, typename V::value_type(0x5a)); return judge(c, [&] { c(v, (I)in.i); return bytes(v); }); }
};
struct CharFamily : FamilyBytes<Converter<std::vector<char>>> { Done run(const Input& in) {
  switch (in.kind) { case 1: return go<std::vector<char>, int>(in); case 2: return go<std::vector<char>, unsigned int>(in); case 3: return go<std::vector<char>, long>(in); case 4: return go<std::vector<char>, unsigned long>(in); default: return judge(c, [&] { return bytes(c(in.s.c_str())); }); } } };
struct UCharFamily : FamilyBytes<Converter<std::vector<unsigned char>>> { Done run(const Input& in) {
  switch (in.kind) { case 1: return go<std::vector<unsigned char>, int>(in); case 2: return go<std::vector<unsigned char>, unsigned int>(in); case 3: return go<std::vector<unsigned char>, long>(in); default: return go<std::vector<unsigned char>, unsigned long>(in); } } };
struct SCharFamily : FamilyBytes<Converter<std::vector<signed char>>> { Done run(const Input& in) {
  switch (in.kind) { case 1: return go<std::vector<signed char>, int>(in); case 2: return go<std::vector<signed char>, unsigned int>(in); case 3: return go<std::vector<signed char>, long>(in); default: return go<std::vector<signed char>, unsigned long>(in); } } };
struct Hex : Subject { Converter<std::vector<char>, char*> c; Done run(const Input& in) { return judge(c, [&] { return bytes(c(in.s.c_str())); }); } };
struct TextInt : Subject { Converter<int, std::string> c; Done run(const Input& in) { return judge(c, [&] { return std::to_string(c(in.s)); }); } };
struct CharInt : Subject { Converter<int, char> c; Done run(const Input& in) { return judge(c, [&] { return std::to_string(c((char)in.i)); }); } };
struct IntFamily : Subject { Converter<int> c; Done run(const Input& in) { return judge(c, [&] { return std::to_string(in.kind ? c((char)in.i) : c(in.s)); }); } };
struct IntChar : Subject { Converter<char, int> c; Done run(const Input& in) { return judge(c, [&] { return std::string(1, c((int)in.i)); }); } };
struct UIntChar : Subject { Converter<char, unsigned int> c; Done run(const Input& in) { return judge(c, [&] { return std::string(1, c((unsigned int)in.i)); }); } };
struct DigitFamily : Subject { Converter<char> c; Done run(const Input& in) { return judge(c, [&] { return std::string(1, in.kind ? c((unsigned int)in.i) : c((int)in.i)); }); } };
struct IntText : Subject { Converter<std::string, int> c; Done run(const Input& in) { return judge(c, [&] { return c((int)in.i); }); } };
struct TextFamily : Subject { Converter<std::string> c; Done run(const Input& in) { return judge(c, [&] { return c((int)in.i); }); } };
struct Decimal : Subject { Converter<char*> c; Done run(const Input& in) { return judge(c, [&] { char* r = in.kind == 0 ? c((int)in.i) : in.kind == 1 ? c((unsigned long)in.i) : in.kind == 2 ? c((bool)in.i) : c((char)in.i); return std::string(r ? r : "(none)"); }); } };
template <class T> struct Starved { static bool go(Done& d, bool fail) {   // the internal buffer cannot be had
  d = attempt([&](Done& r) { starving = fail; std::unique_ptr<Converter<char*, T>> c; try { c.reset(new Converter<char*, T>(40)); } catch (...) { starving = false; throw; } starving = false; r.flag = c->error().flag(); r.value = r.flag == NoError ? "usable" : "not"; });
  return true; } };
}
Subject* CAT(make_, VARIANT)(int what) {
  using namespace VARIANT;
  switch (what) {
    case 0: return new TextInt; case 1: return new CharInt; case 2: return new IntFamily; case 3: return new IntChar; case 4: return new UIntChar; case 5: return new DigitFamily; case 6: return new Hex; case 7: return new CharFamily; case 8: return new UCharFamily; case 9: return new SCharFamily;
    case 10: return new IntText; case 11: return new TextFamily; case 12: return new Decimal;
    case 20: return new Bytes<int, char>; case 21: return new Bytes<unsigned int, unsigned char>; case 22: return new Bytes<long, signed char>; case 23: return new Bytes<unsigned long, char>; case 24: return new Bytes<long long, unsigned char>;
    case 30: return new Number<int, char>; case 31: return new Number<unsigned int, unsigned char>; case 32: return new Number<short, signed char>; case 33: return new Number<unsigned short, char>; case 34: return new Number<long, unsigned char>; case 35: return new Number<unsigned long, signed char>; case 36: return new Number<long long, char>;
  }
  return nullptr;
}
Done CAT(starve_, VARIANT)(int what, bool fail) {
  using namespace VARIANT; Done d; d.thrown = false; d.flag = 0;
  switch (what) { case 0: Starved<char>::go(d, fail); break; case 1: Starved<unsigned char>::go(d, fail); break; case 2: Starved<short>::go(d, fail); break; case 3: Starved<unsigned short>::go(d, fail); break; case 4: Starved<int>::go(d, fail); break; case 5: Starved<unsigned int>::go(d, fail); break;
    case 6: Starved<long>::go(d, fail); break; case 7: Starved<unsigned long>::go(d, fail); break; case 8: Starved<long long>::go(d, fail); break; case 9: Starved<unsigned long long>::go(d, fail); break; case 10: Starved<float>::go(d, fail); break; case 11: Starved<double>::go(d, fail); break; default: Starved<void>::go(d, fail); break; }
  return d;
}
