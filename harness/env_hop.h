// The updates themselves are replaced by stand-ins (they are decided by P01-P07); in the native build their definitions are made replaceable,
// under the executor the calls are redirected.
#if defined(SYM_NATIVE)
asm(".weak _ZN2mc6Markov10CreateWormEv");
asm(".weak _ZN2mc6Markov10DeleteWormEv");
asm(".weak _ZN2mc6Markov11MoveWormOnGEv");
asm(".weak _ZN2mc6Markov11MoveWormOnWEv");
asm(".weak _ZN2mc6Markov9ReconnectEv");
asm(".weak _ZN2mc6Markov14AddInteractionEv");
asm(".weak _ZN2mc6Markov17DeleteInteractionEv");
asm(".weak _ZN2mc6Markov19AddDeltaInteractionEv");
asm(".weak _ZN2mc6Markov22DeleteDeltaInteractionEv");
asm(".weak _ZN2mc6Markov12JumpToOrder0Ev");
asm(".weak _ZN2mc6Markov16JumpBackToOrder1Ev");
asm(".weak _ZN2mc6Markov17ChangeTauOnVertexEv");
asm(".weak _ZN2mc6Markov15ChangeROnVertexEv");
asm(".weak _ZN2mc6Markov11ChangeRLoopEv");
asm(".weak _ZN2mc6Markov21ChangeMeasureFromGToWEv");
asm(".weak _ZN2mc6Markov21ChangeMeasureFromWToGEv");
asm(".weak _ZN2mc6Markov23ChangeDeltaToContinuousEv");
asm(".weak _ZN2mc6Markov23ChangeContinuousToDeltaEv");
asm(".weak _ZN2mc6Markov18ChangeSpinOnVertexEv");
#endif
// ... and so is the random engine
#ifdef __cplusplus
#include <random>
template <> std::mt19937::result_type std::mt19937::operator()();
#endif
