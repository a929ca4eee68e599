#pragma once
#include "lidar_feature_extraction/neighbor.hpp"
extern "C" bool irvc_nb(const void *, int, int);
// An arbitrary implementation of the neighbour interface (havoc): what the callers must work with.
struct IrvcNeighbor : NeighborCheckBase
{
  int n;
  bool operator()(const int a, const int b) const override;
  int size() const override;
};
inline bool IrvcNeighbor::operator()(const int a, const int b) const { return irvc_nb(this, a, b); }
inline int IrvcNeighbor::size() const { return n; }
extern "C" __attribute__((used)) inline void irvc_make_neighbor(IrvcNeighbor * p, int n) { new (p) IrvcNeighbor; p->n = n; }
