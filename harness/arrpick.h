// Shapes and allocators for the histories of arrmodel.h.
#pragma once
typedef shape<dim<dynamic, 2, 1>> FX;
// Shapes chosen for the harness: extents 0..2, strides compact or explicit.
template <class S>
struct Pick;
template <>
struct Pick<shape<>> {
  static shape<> get() { return shape<>(); }
};
template <>
struct Pick<dense_shape<1>> {
  static dense_shape<1> get() { return dense_shape<1>(dense_dim<>(vs_sym("min", -100, 100), vs_choose("ext", 0, 2))); }
};
template <>
struct Pick<shape_of_rank<1>> {
  static shape_of_rank<1> get() {
    index_t st[] = {unresolved, 3, -1};
    return shape_of_rank<1>(dim<>(vs_sym("min", -100, 100), vs_choose("ext", 0, 2), st[vs_choose("str", 0, 2)]));
  }
};
template <>
struct Pick<shape_of_rank<2>> {
  static shape_of_rank<2> get() {
    // compact / padded rows / transposed with a negative stride (same flat extent as compact) / empty
    index_t m = vs_sym("min", -100, 100);
    switch (vs_choose("layout", 0, 3)) {
    case 0: return shape_of_rank<2>(dim<>(m, 2), dim<>(0, 2));
    case 1: return shape_of_rank<2>(dim<>(m, 2, 1), dim<>(0, 2, 5));
    case 2: return shape_of_rank<2>(dim<>(m, 2, -2), dim<>(0, 2, 1));
    default: return shape_of_rank<2>(dim<>(m, 2), dim<>(0, 0));
    }
  }
};
template <>
struct Pick<FX> {
  static FX get() { return FX(dim<dynamic, 2, 1>(vs_sym("min", -100, 100), 2)); }
};
template <>
struct Pick<shape<dim<0, 2, 3>>> {
  static shape<dim<0, 2, 3>> get() { return shape<dim<0, 2, 3>>(); }
};

// Allocator that compares equal only with itself and never propagates.
template <class T, bool POCCA = false, bool POCMA = false, bool POCS = false>
struct Own {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::integral_constant<bool, POCCA>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, POCMA>;
  using propagate_on_container_swap = std::integral_constant<bool, POCS>;
  int id = 0;
  Own() {}
  explicit Own(int i) : id(i) {}
  T* allocate(size_t n) { return static_cast<T*>(::operator new(n * sizeof(T))); }
  void deallocate(T* p, size_t) { ::operator delete(p); }
  friend bool operator==(const Own& a, const Own& b) { return a.id == b.id; }
  friend bool operator!=(const Own& a, const Own& b) { return a.id != b.id; }
};
template <class Al> struct mkal { static Al get(int) { return Al(); } };
template <class T, bool A, bool B, bool C> struct mkal<Own<T, A, B, C>> { static Own<T, A, B, C> get(int i) { return Own<T, A, B, C>(i); } };

