// A program with names of its own, in the global namespace, before and after the headers of the library.
struct Array { int i; }; struct List { int i; }; struct Set { int i; }; struct Map { int i; }; struct Range { int i; }; struct Handle { int i; }; struct Writer { int i; }; struct Lazy { int i; };
struct String { int i; }; struct Tuple { int i; }; struct Pair { int i; }; struct Variant { int i; }; struct True { int i; }; struct Same { int i; }; struct ostream { int i; }; struct shared_ptr { int i; };
struct vector { int i; }; struct list { int i; }; struct map { int i; }; struct set { int i; }; struct string { int i; }; struct tuple { int i; }; struct pair { int i; }; struct function { int i; }; struct array { int i; };
struct Seconds { int i; }; struct Stopwatch { int i; }; struct BinaryWord { int i; }; struct LRUCache { int i; }; struct Uninitialised { int i; };
inline int apply(Array a) { return a.i; } inline int join(List a, List b) { return a.i+b.i; } inline int restrict_keys(Map m) { return m.i; } inline int range(int i) { return i+1; } inline int to_string(String s) { return s.i; }
inline int remove_all(Set s) { return s.i; } inline int contains(Set s, int i) { return s.i==i; } inline int make_list(int i) { return i; } inline int complement(Array a) { return -a.i; } inline int swap(int i) { return i; } inline int move_on(int i) { return i; }
enum Choice { first, second, third };
