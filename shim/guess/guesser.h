#pragma once
// Stand-in for the fuzzy matcher: exact matches first, then those containing
// the query, each in the order they were added.
#include <string>
#include <string_view>
#include <utility>
#include <vector>
namespace guess {
struct match { std::size_t index; float cos_sim; };
struct guesser {
  explicit guesser(std::vector<std::pair<std::string, float>> c) : c_{std::move(c)} {}
  std::vector<match> guess_match(std::string_view const q) const {
    std::vector<match> r;
    for (std::size_t i = 0; i < c_.size(); ++i) { if (c_[i].first == q) { r.push_back({i, 1.0F}); } }
    for (std::size_t i = 0; i < c_.size(); ++i) { if (c_[i].first != q && c_[i].first.find(q) != std::string::npos) { r.push_back({i, 0.5F}); } }
    return r;
  }
  std::vector<std::pair<std::string, float>> c_;
};
}  // namespace guess
