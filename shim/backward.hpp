// Stand-in for the stack trace printer: traces are slow and play no part in any property.
#pragma once
#include <ostream>
#include <sstream>
namespace backward {
struct StackTrace { void load_here(int) {} };
namespace ColorMode { enum type { automatic, never, always }; }
struct Printer { bool object = false; ColorMode::type color_mode = ColorMode::never; bool address = false; bool snippet = false;
  template <typename ST> void print(ST &, std::ostream &) {} };
}
