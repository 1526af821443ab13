#pragma once
// ---- what AntennaPco::dummy_print prints
struct Pco { char sys; std::string code; double v[3]; };
#ifdef VF_SYM_FSTREAM
static std::vector<std::string> txt; static std::vector<double> num;
extern "C" {
std::ostream &rec_d(std::ostream &o, double x) asm("_ZNSolsEd");
std::ostream &rec_s(std::ostream &o, const char *s) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc");
std::ostream &rec_c(std::ostream &o, char c) asm("_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c");
std::ostream &rec_t(std::ostream &o, const std::string &s) asm("_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE");
std::ostream &rec_d(std::ostream &o, double x) { num.push_back(x); return o; }
std::ostream &rec_s(std::ostream &o, const char *s) { txt.push_back(s); return o; }
std::ostream &rec_c(std::ostream &o, char c) { txt.push_back(std::string(1, c)); return o; }
std::ostream &rec_t(std::ostream &o, const std::string &s) { txt.push_back(s); return o; }
}
static Pco seen(const AntennaPco &p) {
  alignas(16) static char fake[1024];
  txt.clear(); num.clear();
  p.dummy_print(*(std::ostream *)fake);
  std::string t;
  for (auto &s : txt) t += s;
  Pco r{t.c_str()[0], t.size() > 5 ? t.substr(2, 3) : std::string(), {0, 0, 0}};
  if (num.size() != 3) vf_assert(0, "offsets-shown");
  for (int i = 0; i < 3; i++) r.v[i] = num[i];
  return r;
}
#else
static Pco seen(const AntennaPco &p) {
  std::ostringstream o;
  o << std::setprecision(17);
  p.dummy_print(o);
  std::string t = o.str();
  Pco r{t[0], t.substr(2, 3), {0, 0, 0}};
  sscanf(t.c_str() + 6, " %lf, %lf, %lf", &r.v[0], &r.v[1], &r.v[2]);
  return r;
}
#endif
