// Histories of one object: inputs are set again and again (to other objects,
// or to the same object with other contents), queries come in between, objects
// are copied, assigned and dropped.  Whatever happened, the answers at the end
// have to be those of a fresh object that was given the same inputs.
#ifndef VERIF_HISTORY_H_
#define VERIF_HISTORY_H_

#include <cmath>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include "engine.h"

namespace vp {

// a value that is somehow related to another one, within limits
inline double Related(Case& c, double x, double lo, double hi) {
  double y = x;
  switch (c.Int(0, 4)) {
    case 0: y = c.Real(lo, hi, lo); break;
    case 1: y = x * (1 + c.PickOf<double>({1e-3, -1e-3, 1e-2, 1e-5, -1e-5})); break;
    case 2: y = x * c.PickOf<double>({1.1, 0.9, 1.5, 0.5}); break;
    case 3: y = x + c.PickOf<double>({1., -1., 0.5, 10., -10.}); break;
    default: break;
  }
  return std::min(hi, std::max(lo, y));
}

template <class Obj>
class Histories {
 public:
  // an input passed by value; set(object, variant)
  void Value(const char* name, int variants, std::function<void(Obj&, int)> set) {
    slots_.push_back({name, variants, [set](Obj& o, int v, bool) { set(o, v); }, nullptr});
  }
  // an input passed by pointer.  load(v) gives the shared object the contents
  // of variant v; set(object, v, shared) passes variant v or the shared object
  void Pointer(const char* name, int variants, std::function<void(int)> load, std::function<void(Obj&, int, bool)> set) {
    slots_.push_back({name, variants, set, load});
  }
  // for inputs that can be assigned
  template <class T>
  void Pointer(const char* name, const std::vector<T>& variants, std::function<void(Obj&, const T*)> set) {
    auto store = std::make_shared<std::vector<T>>(variants);
    auto shared = std::make_shared<T>(variants.at(0));
    Pointer(name, static_cast<int>(variants.size()), [store, shared](int v) { *shared = (*store)[static_cast<size_t>(v)]; },
            [store, shared, set](Obj& o, int v, bool is_shared) { set(o, is_shared ? shared.get() : &(*store)[static_cast<size_t>(v)]); });
  }
  void Peek(const char* name, std::function<void(const Obj&)> f) { peeks_.push_back({name, f}); }
  // a question to the object; its answers are compared
  void Ask(const char* name, std::function<void(const Obj&, std::vector<double>*)> f) { asks_.push_back({name, f}); }
  void Ask(const char* name, std::function<double(const Obj&)> f) {
    Ask(name, [f](const Obj& o, std::vector<double>* r) { r->push_back(f(o)); });
  }
  bool copies = true;
  double atol = 1e-9, rtol = 1e-12;

  void Run(Case& c) {
    const size_t kObjects = copies ? 2 : 1;
    std::vector<std::unique_ptr<Obj>> objects(kObjects);
    std::vector<std::vector<int>> state(kObjects);       // variant of every input
    std::vector<std::vector<bool>> shared(kObjects);     // input is the shared object
    auto create = [&](size_t i) {
      objects[i].reset(new Obj());
      state[i].assign(slots_.size(), 0);
      shared[i].assign(slots_.size(), false);
      size_t first = static_cast<size_t>(c.Int(0, static_cast<int64_t>(slots_.size()) - 1));
      for (size_t k = 0; k < slots_.size(); k++) {
        size_t s = (first + k) % slots_.size();
        slots_[s].set(*objects[i], 0, false);
      }
    };
    for (size_t i = 0; i < kObjects; i++) create(i);
    int steps = static_cast<int>(c.Int(1, 8)), asked = 0, edits = 0;
    std::vector<size_t> loads;  // inputs whose contents can change in place
    for (size_t s = 0; s < slots_.size(); s++)
      if (slots_[s].load) loads.push_back(s);
    auto edit = [&](size_t i, size_t s, int v, bool share) {
      if (share) {
        slots_[s].load(v);
        // everything that uses the shared object has to be told
        for (size_t j = 0; j < kObjects; j++)
          if (j == i || shared[j][s]) {
            slots_[s].set(*objects[j], v, true);
            state[j][s] = v;
            shared[j][s] = true;
          }
      } else {
        slots_[s].set(*objects[i], v, false);
        state[i][s] = v;
        shared[i][s] = false;
      }
      c.Note(Cat("object ", i, ": ", slots_[s].name, " ", v, share ? " in place" : ""));
    };
    auto ask_all = [&](size_t i) {
      for (auto& q : asks_) {
        std::vector<double> a;
        q.second(*objects[i], &a);
      }
      asked++;
      c.Note(Cat("object ", i, ": ask everything"));
    };
    // the contents of an input change right between two questions
    if (!loads.empty() && c.Chance(1, 3)) {
      const size_t i = static_cast<size_t>(c.Int(0, static_cast<int64_t>(kObjects) - 1));
      const size_t s = loads[static_cast<size_t>(c.Int(0, static_cast<int64_t>(loads.size()) - 1))];
      const int v = static_cast<int>(c.Int(0, slots_[s].variants - 1)), w = static_cast<int>(c.Int(0, slots_[s].variants - 1));
      edit(i, s, v, true);
      ask_all(i);
      edit(i, s, w, true);
      edits++;
      if (c.Bool()) steps = 0;
    }
    for (int n = 0; n < steps; n++) {
      size_t i = static_cast<size_t>(c.Int(0, static_cast<int64_t>(kObjects) - 1));
      switch (c.Int(0, copies ? 7 : 5)) {
        case 0: case 1: {  // another input
          size_t s = static_cast<size_t>(c.Int(0, static_cast<int64_t>(slots_.size()) - 1));
          int v = static_cast<int>(c.Int(0, slots_[s].variants - 1));
          edit(i, s, v, slots_[s].load && c.Bool());
          edits += asked > 0;
          break;
        }
        case 2:
          ask_all(i);
          break;
        case 3: case 4: {  // one question
          size_t k = static_cast<size_t>(c.Int(0, static_cast<int64_t>(asks_.size()) - 1));
          std::vector<double> a;
          asks_[k].second(*objects[i], &a);
          asked++;
          c.Note(Cat("object ", i, ": ask ", asks_[k].first));
          break;
        }
        case 5: {
          if (peeks_.empty()) break;
          size_t k = static_cast<size_t>(c.Int(0, static_cast<int64_t>(peeks_.size()) - 1));
          peeks_[k].second(*objects[i]);
          asked++;
          c.Note(Cat("object ", i, ": ", peeks_[k].first));
          break;
        }
        case 6: {  // a copy takes the place of the object
          std::unique_ptr<Obj> copy(new Obj(*objects[i]));
          objects[i] = std::move(copy);
          edits += asked > 0;
          c.Note(Cat("object ", i, ": replaced by its copy"));
          break;
        }
        default: {  // one object is assigned to the other, or to itself
          size_t j = (i + 1) % kObjects;
          if (c.Chance(1, 5)) {
            const Obj& self = *objects[i];
            *objects[i] = self;
            edits += asked > 0;
            c.Note(Cat("object ", i, ": assigned to itself"));
            break;
          }
          *objects[j] = *objects[i];
          state[j] = state[i];
          shared[j] = shared[i];
          edits += asked > 0;
          c.Note(Cat("object ", j, ": assigned object ", i));
          if (c.Bool()) {
            create(i);
            c.Note(Cat("object ", i, ": new"));
          }
          break;
        }
      }
    }
    c.NonTrivial(edits > 0);
    for (size_t i = 0; i < kObjects; i++) {
      // any question can be the first
      const size_t first = static_cast<size_t>(c.Int(0, static_cast<int64_t>(asks_.size()) - 1));
      Obj fresh;
      for (size_t s = 0; s < slots_.size(); s++) slots_[s].set(fresh, state[i][s], false);
      for (size_t n = 0; n < asks_.size(); n++) {
        auto& q = asks_[(first + n) % asks_.size()];
        std::vector<double> want, got;
        q.second(fresh, &want);
        q.second(*objects[i], &got);
        if (want.size() != got.size()) c.Fail(Cat("object ", i, " gives ", got.size(), " answers to ", q.first, ", a fresh one ", want.size()));
        for (size_t k = 0; k < want.size(); k++)
          if (!(want[k] == got[k]) && !(std::isnan(want[k]) && std::isnan(got[k])) &&
              !(std::fabs(want[k] - got[k]) <= atol + rtol * std::fabs(want[k])))
            c.Fail(Cat(q.first, " (", k, ") of object ", i, " after the history: ", got[k], ", with the same inputs from scratch: ", want[k], n == 0 ? ", asked first" : ""));
      }
    }
  }

 private:
  struct Slot {
    const char* name;
    int variants;
    std::function<void(Obj&, int, bool)> set;
    std::function<void(int)> load;
  };
  std::vector<Slot> slots_;
  std::vector<std::pair<const char*, std::function<void(const Obj&)>>> peeks_;
  std::vector<std::pair<const char*, std::function<void(const Obj&, std::vector<double>*)>>> asks_;
};

}  // namespace vp

#endif  // VERIF_HISTORY_H_
