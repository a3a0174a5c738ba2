// Documents (CSX files) described by droppable trace lines:
//   prop <type> <name>            starts a property
//   prim <kind> <8 coordinates/numbers> [flags]
//   docgrid <axis> <values...>    old mesh lines
//   docparam <which> <value>      saved meshing parameters
//   docfix <axis> <value>         saved fixed mesh lines
//   docshift <n>                  moves everything toward the negatives
//   docunit <n>                   unit of the saved fixed mesh lines (0: none told)
//   docroot <0|1|2> <background>  kind of root element
//   docextra <kind>               foreign elements, attributes, comments
#pragma once

#include "common.hpp"

namespace sim::doc {

struct Options {
	int max_props = 3;
	int max_prims = 6;
	bool diagonals = true;
	bool outlines = false; // Outlines of any shape in most documents.
	bool rounds = true;
	bool extras = false;
	bool degenerate = false; // Incomplete elements (P08).
	bool incomplete = false; // A few of them.
	bool params = true;
};
void generate(Rng& rng, Trace& t, Options const& o, int id = 0);
std::string render(Trace const& t, int id = 0);

} // namespace sim::doc
