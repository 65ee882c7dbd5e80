// Static description of a generated chart: what the model checker knows.
#ifndef VERIF_DESC_HPP
#define VERIF_DESC_HPP
namespace desc {
enum RType { R_CUSTOM = 0, R_TRANS, R_INSTATE, R_TERM, R_DEFER, R_DISCARD, R_FORWARD, R_THROW };
enum DKind { D_PLAIN = 0, D_SHALLOW, D_DEEP };
const int NO_ACT = -2;      // no action; -1 = the machine; >= 0 a state
struct Inner { int st; int kind; };
struct Reaction { int type; int ev; int dest; int dkind; int act; int viaBase; };   // ev: class, or -1 for event_base
struct State
{
  const char * name;
  int parent, region;
  int nInner; Inner inner[ 10 ];
  int hist;                  // bit 0 shallow, bit 1 deep
  int hasExit, hasCtx;       // defines exit(); derives from state<> (receives its context)
  int ifcMask;
  int nReact; const Reaction * react;
  int nOpt; const Reaction * opt;   // options of custom reactions
};
struct HistSlot { int st, region, kind; };   // for clear_*_history
struct Chart
{
  const char * name;
  int nStates; const State * st;
  int initial;
  int nHist; const HistSlot * hist;
  int relaxed, native, ndebug, translator /*0 null 1 exception_translator<EX> 2 selective*/, alloc /*0 std 1 tracking*/;
  int machineIfc;            // interfaces the machine itself implements
};
const int nIfc = 4;
}
#endif
