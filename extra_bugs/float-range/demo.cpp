#include "variables.hpp"
#include "parser.hpp"
#include <sstream>
using namespace schnek;
double f = 0;
class App : public Block { protected: void initParameters(BlockParameters &b) { b.addParameter("f", &f); } };
int run(const char *t) {
  BlockClasses bc; FunctionRegistry fr; VariableStorage vars("app", "App"); bc.registerBlock("App").setClass<App>();
  Parser p(vars, fr, bc); std::istringstream in(t);
  try { p.parse(in, "deck")->initAll(); } catch (ParserError &) { return 1; }
  return 0;
}
int main() {
  if (run("f = 1.5e3;") || f != 1500) return 2;
  return run("f = 1.5e999;") ? 0 : 1;     // can not be represented, has to be refused
}
