// Coverage feedback: which blocks of the repository's code a case executed, how often,
// and how far apart the operands of its comparisons were.
#ifndef VERIF_GUIDE_H
#define VERIF_GUIDE_H

#include <cstddef>
#include <cstdint>
#include <vector>

namespace guide
{

const uint32_t kBlocks = 1u << 16, kCompares = 1u << 20;
const uint32_t kFeatures = kBlocks * 8 + kCompares;

void begin();               // only what this thread executes is recorded
void end();
void mark(uint64_t hash);   // a feature that is not of the code
uint64_t cost();            // blocks executed
std::vector<uint32_t> features();

} // namespace guide

#endif
