#pragma once
#include "replay.hpp"
#include "lidar_feature_extraction/neighbor.hpp"
// a random symmetric neighbour relation whose adjacent pairs are given by `gap`
struct RandNb : NeighborCheckBase
{
  std::vector<char> joined;   // joined[i]: i ~ i+1
  int n;
  RandNb(int n_, double p) : joined(n_ > 0 ? n_ : 1), n(n_) {for (auto & j : joined) {j = rp::coin(p);}}
  bool operator()(const int a, const int b) const override
  {
    if (a < 0 || b < 0 || a >= n || b >= n) {throw std::out_of_range("neighbour index");}
    if (a == b) {return true;}
    if (a + 1 == b) {return joined[a];}
    if (b + 1 == a) {return joined[b];}
    return (a * 7 + b * 7 + a * b) % 3 == 0;
  }
  int size() const override {return n;}
  int right(int i) const {while (i + 1 < n && joined[i]) {i++;} return i;}
  int left(int i) const {while (i > 0 && joined[i - 1]) {i--;} return i;}
};
