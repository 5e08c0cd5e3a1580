From 879f6c3263b1a39eaaea6b0b375d165cd39b7971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:57 +0000
Subject: [PATCH 01/53] fix: map and set: upper_bound and equal_range of an
 absent key skipped the next element

---
 ttl/map.hpp | 8 ++++++--
 ttl/set.hpp | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index 1a52ced..3baf2a4 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -276,6 +276,8 @@ namespace ttl
       node_type *lo = rbtree_.lower_bound(key);
       if (lo == rbtree_.end())
          return end();
+      if (!(lo->data.first == key))
+         return iterator(lo);
       return iterator(static_cast<node_type *>(rbtree_base::next_node(lo)));
    }
    template<typename KT, typename T, typename Compare>
@@ -284,6 +286,8 @@ namespace ttl
       const node_type *lo = rbtree_.lower_bound(key);
       if (lo == rbtree_.end())
          return end();
+      if (!(lo->data.first == key))
+         return const_iterator(lo);
       return const_iterator(static_cast<const node_type *>(rbtree_base::next_node(lo)));
    }
 
@@ -293,7 +297,7 @@ namespace ttl
    {
       node_type *lo = rbtree_.lower_bound(key);
       node_type *up = lo;
-      if (lo != rbtree_.end())
+      if (lo != rbtree_.end() && lo->data.first == key)
          up = static_cast<node_type *>(rbtree_base::next_node(lo));
       return pair<iterator, iterator>(iterator(lo), iterator(up));
    }
@@ -303,7 +307,7 @@ namespace ttl
    {
       const node_type *lo = rbtree_.lower_bound(key);
       const node_type *up = lo;
-      if (lo != rbtree_.end())
+      if (lo != rbtree_.end() && lo->data.first == key)
          up = static_cast<const node_type *>(rbtree_base::next_node(lo));
       return pair<const_iterator, const_iterator>(const_iterator(lo), const_iterator(up));
    }
diff --git a/ttl/set.hpp b/ttl/set.hpp
index a989355..eeebc1e 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -253,6 +253,8 @@ namespace ttl
       node_type *lo = rbtree_.lower_bound(key);
       if (lo == rbtree_.end())
          return end();
+      if (!(lo->data == key))
+         return iterator(lo);
       return iterator(static_cast<node_type *>(rbtree_base::next_node(lo)));
    }
    template<typename KT, typename Compare>
@@ -261,6 +263,8 @@ namespace ttl
       const node_type *lo = rbtree_.lower_bound(key);
       if (lo == rbtree_.end())
          return end();
+      if (!(lo->data == key))
+         return const_iterator(lo);
       return const_iterator(static_cast<const node_type *>(rbtree_base::next_node(lo)));
    }
 
@@ -270,7 +274,7 @@ namespace ttl
    {
       node_type *lo = rbtree_.lower_bound(key);
       node_type *up = lo;
-      if (lo != rbtree_.end())
+      if (lo != rbtree_.end() && lo->data == key)
          up = static_cast<node_type *>(rbtree_base::next_node(lo));
       return pair<iterator, iterator>(iterator(lo), iterator(up));
    }
@@ -280,7 +284,7 @@ namespace ttl
    {
       const node_type *lo = rbtree_.lower_bound(key);
       const node_type *up = lo;
-      if (lo != rbtree_.end())
+      if (lo != rbtree_.end() && lo->data == key)
          up = static_cast<const node_type *>(rbtree_base::next_node(lo));
       return pair<const_iterator, const_iterator>(const_iterator(lo), const_iterator(up));
    }
-- 
2.43.0


From ccfd31a766984fb32cd7d058a27d89ddcfb0615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:12 +0000
Subject: [PATCH 02/53] fix: map, set and rbtree: self-assignment emptied the
 container

---
 ttl/map.hpp    | 1 -
 ttl/rbtree.hpp | 2 ++
 ttl/set.hpp    | 1 -
 3 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index 3baf2a4..8c689f7 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -181,7 +181,6 @@ namespace ttl
 
       map &operator=(const map &other)
       {
-         clear();
          rbtree_.assign(other.rbtree_);
          return *this;
       }
diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index addb86a..bc51f25 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -332,6 +332,8 @@ namespace ttl
    template <class K, class KV, class KeyOfValue, class Compare>
    void rbtree<K,KV,KeyOfValue,Compare>::assign(const rbtree &other)
    {
+      if (this == &other)
+         return;
       if (root_())
          clear();
       const node *otherroot = other.get_root();
diff --git a/ttl/set.hpp b/ttl/set.hpp
index eeebc1e..cdb3ac6 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -169,7 +169,6 @@ namespace ttl
 
       set &operator=(const set &other)
       {
-         clear();
          rbtree_.assign(other.rbtree_);
          return *this;
       }
-- 
2.43.0


From 66ab17f8e11a38e31f1c13c947c35062deba9f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:15 +0000
Subject: [PATCH 03/53] fix: vector, fixed_vector, list, forward_list,
 backward_list and lazy_queue: self-assignment emptied the container

---
 ttl/backward_list.hpp | 2 ++
 ttl/fixed_vector.hpp  | 2 ++
 ttl/forward_list.hpp  | 2 ++
 ttl/lazy_queue.hpp    | 2 ++
 ttl/list.hpp          | 2 ++
 ttl/vector.hpp        | 2 ++
 6 files changed, 12 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index f46213f..d70acf2 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -120,6 +120,8 @@ namespace ttl
 
       backward_list &operator=(const backward_list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 61099fe..aec20b4 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -167,6 +167,8 @@ namespace ttl
    template<typename T, const unsigned int N>
    fixed_vector<T,N> &fixed_vector<T,N>::operator=(const fixed_vector &other)
    {
+      if (this == &other)
+         return *this;
       clear();
       for (const_iterator i = other.cbegin(); i != other.cend(); ++i)
          ::new(last_++) T(*i);
diff --git a/ttl/forward_list.hpp b/ttl/forward_list.hpp
index df44e9a..86615ac 100644
--- a/ttl/forward_list.hpp
+++ b/ttl/forward_list.hpp
@@ -108,6 +108,8 @@ namespace ttl
 
       forward_list &operator=(const forward_list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index 446ccec..b9712cb 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -144,6 +144,8 @@ namespace ttl
 
       lazy_queue &operator=(const lazy_queue &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert_after(cbefore_begin(), other.cbegin(), other.cend());
          return *this;
diff --git a/ttl/list.hpp b/ttl/list.hpp
index 565cdc5..7c91d5c 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -209,6 +209,8 @@ namespace ttl
 
       list &operator=(const list &other)
       {
+         if (this == &other)
+            return *this;
          clear();
          insert(begin(), other.cbegin(), other.cend());
          return *this;
diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index fc42799..69bcd16 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -208,6 +208,8 @@ namespace ttl
    template<typename T>
    vector<T> &vector<T>::operator=(const vector &other)
    {
+      if (this == &other)
+         return *this;
       clear();
       reserve(other.capacity());
       for (const_iterator i = other.cbegin(); i != other.cend(); ++i)
-- 
2.43.0


From c28d80ab0e43e6ccd69ed06607b6c321d74170b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:38 +0000
Subject: [PATCH 04/53] fix: vector::erase of an empty range copied the
 following elements onto themselves and destroyed them

---
 ttl/vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index 69bcd16..0df31bc 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -307,6 +307,8 @@ namespace ttl
    {
       difference_type off = first - begin();
       difference_type lastoff = last - begin();
+      if (off == lastoff)
+         return begin() + off;
       for (T *f = elements_ + off, *l = elements_ + lastoff; f != l;)
          (--l)->~T();
       T *o = elements_ + off;
-- 
2.43.0


From 28bc41c71dee9860e914a50de4632a053daaddf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:41 +0000
Subject: [PATCH 05/53] fix: fixed_vector::erase of an empty range copied the
 following elements onto themselves and destroyed them

---
 ttl/fixed_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index aec20b4..eead4e3 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -266,6 +266,8 @@ namespace ttl
    {
       difference_type off = first - begin();
       difference_type lastoff = last - begin();
+      if (off == lastoff)
+         return begin() + off;
       for (T *f = elements() + off, *l = elements() + lastoff; f != l;)
          (--l)->~T();
       T *o = elements() + off;
-- 
2.43.0


From d3a979d990551d5fc13f702ae3b6015c6ae7bf34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 06/53] fix: vector::insert of a copy of one of its own
 elements inserted a moved or dead object

---
 ttl/vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index 0df31bc..a17d4d5 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -121,13 +121,15 @@ namespace ttl
 
       iterator insert(const_iterator pos, size_type n, const value_type &x)
       {
-         vc_counter_args args(x);
+         const value_type copy(x); // x can be an element of this vector
+         vc_counter_args args(copy);
          return insert_values(pos, n, &ttl::vector<T>::vc_counter, args);
       }
 
       iterator insert(const_iterator pos, const value_type &x)
       {
-         vc_counter_args args(x);
+         const value_type copy(x); // x can be an element of this vector
+         vc_counter_args args(copy);
          return insert_values(pos, 1, &ttl::vector<T>::vc_counter, args);
       }
 
-- 
2.43.0


From f552ac55ee26e77bf8bf7517b371a80a3ab3bd37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:47 +0000
Subject: [PATCH 07/53] fix: fixed_vector::insert of a copy of one of its own
 elements inserted a moved or dead object

---
 ttl/fixed_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index eead4e3..d007721 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -206,6 +206,7 @@ namespace ttl
          T *o;
          if (pos < end())
          {
+            const T copy(x); // x can be an element of this vector
             T *p = elements() + dist, *i = last_;
             for (o = last_ + n; end_of_elements() < o && i != p; --o)
                (--i)->~T();
@@ -218,7 +219,7 @@ namespace ttl
                i->~T();
             }
             for (o = p; n-- && o < end_of_elements();)
-               ::new(o++) T(x);
+               ::new(o++) T(copy);
          }
          else
          {
-- 
2.43.0


From f197dd415373dcb7eb7f93196e99e523564cbb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:50 +0000
Subject: [PATCH 08/53] fix: fixed_vector::swap with a shorter vector swapped
 past the end of the shorter one and lost elements

---
 ttl/fixed_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index d007721..1168eec 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -287,7 +287,7 @@ namespace ttl
       const bool this_a = this->size() < x.size();
       fixed_vector &a = this_a ? *this: x;
       fixed_vector &b = this_a ? x: *this;
-      size_type minsiz = this_a ? a.size(): b.size();
+      size_type minsiz = a.size();
       ttl::swap_ranges(a.elements(), a.elements() + minsiz, b.elements());
       T *e = b.elements() + minsiz;
       while (e < b.last_)
-- 
2.43.0


From d4d9b4246e854e21153784fa0f1bb0f78741ac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:24 +0000
Subject: [PATCH 09/53] fix: list::clear left the list pointing at its freed
 last element: back, push_back, assign and operator= after it used freed
 memory

---
 ttl/list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 7c91d5c..71ea37f 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -406,6 +406,7 @@ namespace ttl
          head_.next = head_.next->next;
          delete p;
       }
+      head_.init();
    }
    template<typename T>
    typename list<T>::iterator list<T>::erase(const_iterator pos, const_iterator last)
-- 
2.43.0


From ebc250de1eca7194c1342494315e14462e058f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:27 +0000
Subject: [PATCH 10/53] fix: list::splice of an empty range, or to the position
 it already has, broke the links of the lists

---
 ttl/list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 71ea37f..1c5689f 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -35,6 +35,8 @@ namespace ttl
 
       void splice(list_node *first, list_node *last)
       {
+         if (first == last || this == last) // nothing to move
+            return;
          last->prev->next = this;
          first->prev->next = last;
          this->prev->next = first;
-- 
2.43.0


From 4062eb92f67f780c57ec5c85f573d4cefbc499b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:30 +0000
Subject: [PATCH 11/53] fix: list::swap of two empty lists left one of them
 pointing into the other

---
 ttl/list.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 1c5689f..ded304f 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -78,6 +78,8 @@ namespace ttl
                t = a, a = b, b = t; // swap
             }
          }
+         else if (b == b->next)
+            return;
          a->prev = b->prev;
          a->next = b->next;
          b->prev->next = b->next->prev = a;
@@ -105,7 +107,7 @@ namespace ttl
             else
                halfswap(b, a);
          }
-         else
+         else if (b != b->next)
             halfswap(a, b);
       }
 #endif
-- 
2.43.0


From 097c46463e1c1c7bfea6cdfe054656846ea4f4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:33 +0000
Subject: [PATCH 12/53] fix: list::resize(0) did not remove anything

---
 ttl/list.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index ded304f..2bd3e66 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -366,6 +366,8 @@ namespace ttl
    template<typename T>
    void list<T>::resize(size_type newsize)
    {
+      if (!newsize)
+         return clear();
       size_type siz = 0;
       list_node *p;
       for (p = head_.next; p != &head_; p = p->next)
@@ -385,6 +387,8 @@ namespace ttl
    template<typename T>
    void list<T>::resize(size_type newsize, const T &value)
    {
+      if (!newsize)
+         return clear();
       size_type siz = 0;
       list_node *p;
       for (p = head_.next; p != &head_; p = p->next)
-- 
2.43.0


From f799e212efc9a5eda9d118c74d3c727f402f5746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:36 +0000
Subject: [PATCH 13/53] fix: list::resize appended uninitialized elements of
 fundamental types

---
 ttl/list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 2bd3e66..98d4f67 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -128,7 +128,7 @@ namespace ttl
       struct node: list_node
       {
          T value;
-         node() {}
+         node(): value() {}
          node(const T &v): value(v) {}
       };
       list_node head_;
-- 
2.43.0


From 2a34a2f34659a49a0cb52f7ed7e912f45fe77943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 14/53] fix: list::remove of a value which is an element of the
 list used it after its removal

---
 ttl/list.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ttl/list.hpp b/ttl/list.hpp
index 98d4f67..c0ce1cf 100644
--- a/ttl/list.hpp
+++ b/ttl/list.hpp
@@ -432,12 +432,17 @@ namespace ttl
    template<typename T>
    void list<T>::remove(const T &value)
    {
+      node *self = 0; // the node of value, if it is an element of this list
       for (list_node *p = head_.next, *n = p->next; p != &head_; p = n, n = n->next)
          if (static_cast<const node *>(p)->value == value)
          {
             p->unlink();
-            delete static_cast<node *>(p);
+            if (&static_cast<node *>(p)->value == &value)
+               self = static_cast<node *>(p);
+            else
+               delete static_cast<node *>(p);
          }
+      delete self;
    }
    template<typename T>
    template<typename Predicate>
-- 
2.43.0


From b8ecdb3852c90eb8f11fa3b071357b21e8438b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:12 +0000
Subject: [PATCH 15/53] fix: forward_list::splice_after of an empty range, or
 to the position it already has, broke the links of the lists

---
 ttl/slist_node.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ttl/slist_node.hpp b/ttl/slist_node.hpp
index 1c9b74a..36319da 100644
--- a/ttl/slist_node.hpp
+++ b/ttl/slist_node.hpp
@@ -30,12 +30,16 @@ namespace ttl
       void splice_after(slist_node *o)
       {
          slist_node *n = o->next;
+         if (n == this) // in place already
+            return;
          o->next = n->next;
          n->next = next;
          next = n;
       }
       void splice_after(slist_node *f, slist_node *l)
       {
+         if (this == f || f->next == l) // nothing to move
+            return;
          slist_node *n = next;
          next = f->next;
          slist_node *o = f;
-- 
2.43.0


From 40e6d0e5450762928d38f1391b91effc714c4d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:15 +0000
Subject: [PATCH 16/53] fix: backward_list::insert_after of a range at the end
 did not move the tail: copies and assigned lists looked empty

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index d70acf2..d308309 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -268,7 +268,7 @@ namespace ttl
       for ( ; first != last; ++first)
          p = p->insert_after(new node(*first));
       if (pn == tail_)
-         tail_ = pn;
+         tail_ = p;
    }
    template<typename T>
    void backward_list<T>::clear()
-- 
2.43.0


From 28cdda050cd7d9af58274d38bc61439ba8256b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:18 +0000
Subject: [PATCH 17/53] fix: backward_list::pop_front of the last element left
 the tail pointing at the freed element

---
 ttl/backward_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index d308309..ba290f3 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -175,7 +175,7 @@ namespace ttl
       void pop_front()
       {
          delete static_cast<node *>(head_.unlink_next());
-         if (empty())
+         if (!head_.next)
             tail_ = &head_;
       }
 
-- 
2.43.0


From 628d38f1e6592b59a41de5a3a26634b3fc95670d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:20 +0000
Subject: [PATCH 18/53] fix: backward_list::reverse of an empty list set its
 tail to null: it was not empty any more and push_back crashed

---
 ttl/backward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index ba290f3..29bd95c 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -290,6 +290,8 @@ namespace ttl
    template<typename T>
    void backward_list<T>::reverse()
    {
+      if (!head_.next)
+         return;
       tail_ = head_.next;
       head_.reverse();
    }
-- 
2.43.0


From 1e5d7fb8fdfdeeac632cbd121841a52ce04b3f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:23 +0000
Subject: [PATCH 19/53] fix: backward_list::swap and lazy_queue::swap with an
 empty list left its tail pointing into the other list

---
 ttl/backward_list.hpp | 4 ++++
 ttl/lazy_queue.hpp    | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ttl/backward_list.hpp b/ttl/backward_list.hpp
index 29bd95c..dd0c872 100644
--- a/ttl/backward_list.hpp
+++ b/ttl/backward_list.hpp
@@ -221,6 +221,10 @@ namespace ttl
       {
          ttl::swap(head_.next, other.head_.next);
          ttl::swap(tail_, other.tail_);
+         if (!head_.next)
+            tail_ = &head_;
+         if (!other.head_.next)
+            other.tail_ = &other.head_;
       }
 
       void clear();
diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index b9712cb..a995462 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -209,6 +209,10 @@ namespace ttl
       {
          ttl::swap(head_.next, other.head_.next);
          ttl::swap(tail_, other.tail_);
+         if (!head_.next)
+            tail_ = &head_;
+         if (!other.head_.next)
+            other.tail_ = &other.head_;
       }
 
       void clear();
-- 
2.43.0


From 3b241b0cdf1a73ade6d9bba180e1f0906fa00787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:26 +0000
Subject: [PATCH 20/53] fix: lazy_queue::cleanup and its destructor destroyed
 the values of the pooled nodes for the second time

---
 ttl/lazy_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/lazy_queue.hpp b/ttl/lazy_queue.hpp
index a995462..e6bc27e 100644
--- a/ttl/lazy_queue.hpp
+++ b/ttl/lazy_queue.hpp
@@ -139,7 +139,7 @@ namespace ttl
       void cleanup()
       {
          while (dead_.next)
-            ::delete(static_cast<node *>(dead_.unlink_next()));
+            ::operator delete(static_cast<node *>(dead_.unlink_next())); // the value is destroyed already
       }
 
       lazy_queue &operator=(const lazy_queue &other)
-- 
2.43.0


From 1fc941d950ee72322e896f7dba4a1a0c375c2578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:29 +0000
Subject: [PATCH 21/53] fix: sorted_vector_map::count returned 1 for absent
 keys and 0 for present ones

---
 ttl/sorted_vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 487b685..592a00a 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -158,7 +158,7 @@ namespace ttl
       iterator find(const KT &key);
       const_iterator find(const KT &key) const;
 
-      size_type count(const KT &key) const { return find(key) == cend(); }
+      size_type count(const KT &key) const { return find(key) != cend(); }
 
       ttl::pair<iterator,iterator> equal_range(const KT &key)
       {
-- 
2.43.0


From 46199881bcdb9ef103d3c9d286c0ef69cc141642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 22/53] fix: sorted_vector_map: insertion into a full map of
 capacity 1 wrote past the end of its storage

---
 ttl/sorted_vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index 592a00a..eced061 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -280,7 +280,7 @@ namespace ttl
          value_type **i;
          size_type newcapacity = end_of_elements_ - elements_;
          newcapacity += newcapacity/2; // temporarily funny...
-         if (!newcapacity)
+         if (newcapacity < 2)
             newcapacity = 2;
          value_type **newelements = o = new value_type *[newcapacity];
          for (i = elements_; i != pos.ptr_;)
-- 
2.43.0


From ea544f95269f2d200a32a8b51e6e7218a2bf8256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 23/53] fix: vector_map::count of a present key did not end

---
 ttl/vector_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/vector_map.hpp b/ttl/vector_map.hpp
index 711b91d..6b692da 100644
--- a/ttl/vector_map.hpp
+++ b/ttl/vector_map.hpp
@@ -69,7 +69,7 @@ namespace ttl
       size_type count(const KT &key) const
       {
          size_type n = 0;
-         for (const_iterator i = begin(); (i = find_key(i, key)) != end();)
+         for (const_iterator i = begin(); (i = find_key(i, key)) != end(); ++i)
             ++n;
          return n;
       }
-- 
2.43.0


From 50136e0972450cd1757130cb2098f59e4d4535df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:09 +0000
Subject: [PATCH 24/53] fix: rbtree::count missed the equal elements in the
 right subtree of an equal element

---
 ttl/rbtree.hpp | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index bc51f25..9ea62df 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -352,20 +352,10 @@ namespace ttl
    template <class K, class KV, class KeyOfValue, class Compare>
    size_t rbtree<K,KV,KeyOfValue,Compare>::count(const K &key) const
    {
-      const rbnode *n = root_();
+      // equal elements can be on both sides of each other
       size_t c = 0;
-      while (n)
-      {
-         const K &nkey = keyof_(static_cast<const node *>(n)->data);
-         if (is_less_(nkey, key))
-            n = n->right;
-         else
-         {
-            if (nkey == key)
-               ++c;
-            n = n->left;
-         }
-      }
+      for (const rbnode *n = lower_bound(key), *end = upper_bound(key); n != end; n = next_node(n))
+         ++c;
       return c;
    }
 
-- 
2.43.0


From 224c1889a44bca8cedb5a27e2d4242d184c21a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 25/53] fix: bitset::set(pos, false) did not clear the bit

---
 ttl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 9f95580..a6cb8d5 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -124,7 +124,7 @@ namespace ttl
       bitset<N> &set(ttl::size_t pos, bool value)
       {
          const slot_type mask = (slot_type)value << bits_bit(pos);
-         *bits_slot(pos) = (*bits_slot(pos) & ~mask) | mask;
+         *bits_slot(pos) = (*bits_slot(pos) & ~(1lu << bits_bit(pos))) | mask;
          return *this;
       }
 
-- 
2.43.0


From 29d85959178be3f4eaa209eca83e2cf666da93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 26/53] fix: bitset: assigning one bit reference to another
 cleared the other bits of the word and kept a set bit set

---
 ttl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index a6cb8d5..1cf7d1d 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -71,7 +71,7 @@ namespace ttl
          ~reference() {}
          reference& operator=(const reference &other)
          {
-            *bits_ = (*bits_ & mask_) | (-other.operator bool() & mask_);
+            *bits_ = (*bits_ & ~mask_) | (-other.operator bool() & mask_);
             return *this;
          }
          operator bool() const { return (*bits_ & mask_) != 0; }
-- 
2.43.0


From 83ba0029e0bf09421b0be2a45d20504db3aa7066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:17 +0000
Subject: [PATCH 27/53] fix: bitset: construction from a string longer than the
 bitset wrote past its storage

---
 ttl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 1cf7d1d..86f6d8d 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -198,7 +198,7 @@ namespace ttl
    bitset<N>::bitset(const char *bits, ttl::size_t n, char zero, char one)
    {
       ttl::size_t i;
-      for (i = 0; i < n; ++i)
+      for (i = 0; i < n && i < N; ++i)
          if (!(bits[i] == zero || bits[i] == one))
             break;
       for (ttl::size_t s = i / (sizeof(slot_type) * CHAR_BIT); s < sizeof(bits_)/sizeof(*bits_); ++s)
-- 
2.43.0


From 16d07ae9e238e645768f2cfd85434038a5da795d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:20 +0000
Subject: [PATCH 28/53] fix: bitset: conversion to a larger bitset copied the
 unused bits of the smaller one

---
 ttl/bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 86f6d8d..5219b70 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -284,6 +284,8 @@ namespace ttl
       const ttl::size_t n = N < M ? capacity()/(sizeof(slot_type) * CHAR_BIT): other.capacity()/(sizeof(slot_type) * CHAR_BIT);
       for (i = 0; i < n; ++i)
          bits_[i] = other.slot(i);
+      if (n && M < N) // the unused bits of other must not become used ones
+         bits_[n - 1] &= bitset<M>::last_bits();
       for ( ; i < sizeof(bits_)/sizeof(*bits_); ++i)
          bits_[i] = 0;
       return *this;
-- 
2.43.0


From 21717387268ba96801c15378bc4af1fa74743057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:24 +0000
Subject: [PATCH 29/53] fix: bitset<0>: construction from an integer wrote past
 its storage

---
 ttl/bitset.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index 5219b70..cb91971 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -169,7 +169,8 @@ namespace ttl
    template<ttl::size_t N>
    inline bitset<N>::bitset(unsigned long bits)
    {
-      bits_[0] = bits;
+      if (N)
+         bits_[0] = bits;
       for (unsigned i = 1; i < sizeof(bits_)/sizeof(*bits_); ++i)
          bits_[i] = 0;
    }
@@ -183,7 +184,8 @@ namespace ttl
          bits >>= sizeof(slot_type) * CHAR_BIT;
       }
 #else
-      bits_[0] = bits;
+      if (N)
+         bits_[0] = bits;
       for (unsigned i = 1; i < sizeof(bits_)/sizeof(*bits_); ++i)
          bits_[i] = 0;
 #endif
-- 
2.43.0


From d4016122d210fcdb884bc4258fceb0117998d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 30/53] fix: search_n with a predicate compared the first
 element of a run with == instead

---
 ttl/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 290cf8d..e62372a 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -135,7 +135,7 @@ namespace ttl
 
       for(; first != last; ++first)
       {
-         if (*first == value)
+         if (pred(*first, value))
          {
             ForwardIt candidate = first;
             for (Size c = 1;; ++c)
-- 
2.43.0


From a601a2a684d32a36a89544c06965785f21f4ba9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 31/53] fix: min of two equivalent values returned the second
 one

---
 ttl/algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index e62372a..e310f2d 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -660,13 +660,13 @@ namespace ttl
    template<class T>
    inline ttl_constexpr const T &min(const T &a, const T &b)
    {
-      return a < b ? a: b;
+      return b < a ? b: a;
    }
 
    template<class T, class Compare>
    inline ttl_constexpr const T &min(const T &a, const T &b, Compare comp)
    {
-      return comp(a, b) ? a: b;
+      return comp(b, a) ? b: a;
    }
 
    template<class T>
-- 
2.43.0


From 5a9225ede2863304b2a31005f1df40ce57134b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:04 +0000
Subject: [PATCH 32/53] fix: forward_list.hpp did not compile unless
 utility.hpp was included before it

---
 ttl/forward_list.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/forward_list.hpp b/ttl/forward_list.hpp
index 86615ac..0b51925 100644
--- a/ttl/forward_list.hpp
+++ b/ttl/forward_list.hpp
@@ -12,6 +12,8 @@
 
 namespace ttl
 {
+   template<typename T> void swap(T &, T &);
+
    template<typename T>
    class forward_list
    {
-- 
2.43.0


From 71333fa584ffd3b94ca22847eeaff7004fc4f1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:07 +0000
Subject: [PATCH 33/53] fix: rbtree.hpp did not compile unless types.hpp was
 included before it

---
 ttl/rbtree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index 9ea62df..965c3f8 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -9,6 +9,8 @@
 #ifndef _TINY_TEMPLATE_LIBRARY_RBTREE_HPP_
 #define _TINY_TEMPLATE_LIBRARY_RBTREE_HPP_ 1
 
+#include "types.hpp"
+
 namespace ttl
 {
    template<typename T1, typename T2> struct pair;
-- 
2.43.0


From ef6becec2a7abc7bb8fccd7331ac9180d3d18804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 34/53] fix: comparison of maps did not compile if
 algorithm.hpp was included after map.hpp

---
 ttl/map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index 8c689f7..9f0813e 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -312,7 +312,7 @@ namespace ttl
    }
 
    template<class InputIt1, class InputIt2>
-   bool equal(InputIt1, InputIt1, InputIt2);
+   bool equal(InputIt1, InputIt1, InputIt2, InputIt2);
 
    template <typename KT, typename T, typename Compare>
    bool operator==(const map<KT,T,Compare> &a, const map<KT,T,Compare> &b)
-- 
2.43.0


From dc3772378a258c016712667e284d6636aa647bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:14 +0000
Subject: [PATCH 35/53] fix: iter_swap, swap_ranges and reverse of fundamental
 types did not compile if utility.hpp was included after algorithm.hpp

---
 ttl/algorithm.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index e310f2d..1585336 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -19,6 +19,7 @@ namespace ttl
 #endif
    template<class T1, class T2> struct pair;
    template<class T1, class T2> pair<T1,T2> make_pair(T1, T2);
+   template<typename T> void swap(T &, T &);
 #if __cplusplus >= 201103L // C++11
    template<class T> struct remove_reference;
    template<class T> constexpr typename remove_reference<T>::type &&move(T &&);
-- 
2.43.0


From 893c24fa2c3b394d27dcc0ceba7d522ce4a0692a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:56 +0000
Subject: [PATCH 36/53] fix: rbtree::remove of a key with duplicates could lose
 another element and break the balance of the tree

---
 ttl/rbtree.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ttl/rbtree.hpp b/ttl/rbtree.hpp
index 965c3f8..8f9e40d 100644
--- a/ttl/rbtree.hpp
+++ b/ttl/rbtree.hpp
@@ -484,12 +484,15 @@ namespace ttl
                *root = 0;
                break;
             }
+            const rbnode *n = *root;
             if ((*root)->right && !is_red((*root)->right) && !is_red((*root)->right->left))
             {
                *root = move_right(*root);
                isless = is_less_(key, keyof_(static_cast<const node *>(*root)->data));
             }
-            if (key == keyof_(static_cast<const node *>(*root)->data))
+            // if move_right made another node the root, its right link is not
+            // prepared for delete_min; and if it has the key, n has it, too
+            if (n == *root && key == keyof_(static_cast<const node *>(*root)->data))
             {
                rbnode *orphan = delete_min(&(*root)->right);
                orphan->color = (*root)->color;
-- 
2.43.0


From 89528cc690decdf197795f1e7e513d9c2cf9583b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:13 +0000
Subject: [PATCH 37/53] fix: vector::reserve of exactly the capacity it has
 moved the elements to a new block

---
 ttl/vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index a17d4d5..914987c 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -238,7 +238,7 @@ namespace ttl
    template<typename T>
    void vector<T>::reserve(size_type n)
    {
-      if (elements_ + n < end_of_elements_)
+      if (n <= capacity())
          return;
       T *newelements = static_cast<T *>(::operator new(n * sizeof(T)));
       T *o = newelements, *i = elements_;
-- 
2.43.0


From aa662f0fea47327cfb2a15595a0cd0cff5eb9649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 38/53] fix: ttl_countof did not compile from C++11 on: the
 macro countof was expanded in it

---
 ttl/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/utility.hpp b/ttl/utility.hpp
index 70697f4..22caa2e 100644
--- a/ttl/utility.hpp
+++ b/ttl/utility.hpp
@@ -16,7 +16,7 @@ namespace ttl
 #ifndef countof
 #define countof(a) ttl::countof(a)
 #endif
-#define ttl_countof(a) ttl::countof(a)
+#define ttl_countof(a) (ttl::countof)(a) // not the macro
 #else
    template<typename T, unsigned int N> char (&_char_array_ref(const T (&)[N]))[N];
 #ifndef countof
-- 
2.43.0


From 59ccc217fb7b06ad5b24d2651f9d58e9bad040a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:16 +0000
Subject: [PATCH 39/53] fix: is_const and is_volatile of an rvalue reference
 did not compile

---
 ttl/type_traits.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ttl/type_traits.hpp b/ttl/type_traits.hpp
index 08ca210..9b8e754 100644
--- a/ttl/type_traits.hpp
+++ b/ttl/type_traits.hpp
@@ -48,6 +48,9 @@ namespace ttl
    template<typename T> struct is_const: is_const_value<T*> {};
    // is_const is false because T is const, not the reference to T.
    template<typename T> struct is_const<T&>: false_type{};
+#if __cplusplus >= 201103L // C++11
+   template<typename T> struct is_const<T&&>: false_type{};
+#endif
 
    // is_volatile<T>::value == true if and only if T has volatile-qualification.
    template<typename T> struct is_volatile_value: false_type {};
@@ -56,6 +59,9 @@ namespace ttl
    template<typename T> struct is_volatile: is_volatile_value<T*> {};
    // is_const is false because T is const, not the reference to T.
    template <typename T> struct is_volatile<T&>: false_type {};
+#if __cplusplus >= 201103L // C++11
+   template <typename T> struct is_volatile<T&&>: false_type {};
+#endif
 
     // is_signed<T>::value == true if and only if T is one of the following types:
     template<class T> struct is_signed: integral_constant<bool,
-- 
2.43.0


From 4e57709efae7e52d9afa959ed6a24ae9a0a9ac55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:23 +0000
Subject: [PATCH 40/53] fix: bitset.hpp did not compile with clang++
 -std=c++98: sizeof of a data member in a static member function

---
 ttl/bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index cb91971..d0e98c8 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -24,7 +24,7 @@ namespace ttl
    public:
       static slot_type last_bits()
       {
-         return sizeof(bits_)*CHAR_BIT == N ? (slot_type)-1: (1lu << (N % (sizeof(slot_type) * CHAR_BIT))) - 1lu;
+         return N % (sizeof(slot_type) * CHAR_BIT) == 0 ? (slot_type)-1: (1lu << (N % (sizeof(slot_type) * CHAR_BIT))) - 1lu;
       }
       ttl::size_t last_slot_index() const {return N ? sizeof(bits_)/sizeof(*bits_) - 1: 0; }
 
-- 
2.43.0


From 585a0e015b081502807581af64efb77c6286585e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:13 +0000
Subject: [PATCH 41/53] fix: a program with its own macro countof, which
 utility.hpp respects, did not compile from C++11 on

---
 ttl/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/utility.hpp b/ttl/utility.hpp
index 22caa2e..416bbb2 100644
--- a/ttl/utility.hpp
+++ b/ttl/utility.hpp
@@ -12,7 +12,7 @@
 namespace ttl
 {
 #if __cplusplus >= 201103L // C++11
-   template<typename T, unsigned int N> constexpr unsigned int countof(const T (&)[N]) { return N; }
+   template<typename T, unsigned int N> constexpr unsigned int (countof)(const T (&)[N]) { return N; }
 #ifndef countof
 #define countof(a) ttl::countof(a)
 #endif
-- 
2.43.0


From fa3579cb9072740327d56f47535b7b8b51b3ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 42/53] fix: algorithms call each other by qualified names:
 they did not compile, or called a function of another namespace, for
 iterators, elements or predicates of a namespace which declares functions of
 the same names

---
 ttl/algorithm.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 1585336..9fad1b5 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -176,19 +176,19 @@ namespace ttl
    template<class InputIt, class UnaryPredicate>
    bool all_of(InputIt first, InputIt last, UnaryPredicate p)
    {
-      return find_if_not(first, last, p) == last;
+      return ttl::find_if_not(first, last, p) == last;
    }
 
    template<class InputIt, class UnaryPredicate>
    bool any_of(InputIt first, InputIt last, UnaryPredicate p)
    {
-       return find_if(first, last, p) != last;
+       return ttl::find_if(first, last, p) != last;
    }
 
    template<class InputIt, class UnaryPredicate>
    bool none_of(InputIt first, InputIt last, UnaryPredicate p)
    {
-       return find_if(first, last, p) == last;
+       return ttl::find_if(first, last, p) == last;
    }
 
    // find duplicates
@@ -308,7 +308,7 @@ namespace ttl
    inline iterator1 swap_ranges(iterator1 first1, iterator1 last1, iterator2 first2)
    {
       for (; first1 != last1; ++first1, ++first2)
-         iter_swap(first1, first2);
+         ttl::iter_swap(first1, first2);
       return first2;
    }
 
@@ -440,7 +440,7 @@ namespace ttl
    template<class ForwardIt, class T>
    ForwardIt remove(ForwardIt first, ForwardIt last, const T &value)
    {
-      first = find(first, last, value);
+      first = ttl::find(first, last, value);
       if (first != last)
          for (ForwardIt i = first; ++i != last; )
             if (!(*i == value))
@@ -454,7 +454,7 @@ namespace ttl
    template<class ForwardIt, class UnaryPredicate>
    ForwardIt remove_if(ForwardIt first, ForwardIt last, UnaryPredicate p)
    {
-      first = find_if(first, last, p);
+      first = ttl::find_if(first, last, p);
       if (first != last)
          for (ForwardIt i = first; ++i != last; )
             if (!p(*i))
@@ -579,29 +579,29 @@ namespace ttl
    template<class ForwardIt, class T>
    inline bool binary_search(ForwardIt first, ForwardIt last, const T &value)
    {
-      first = lower_bound(first, last, value);
+      first = ttl::lower_bound(first, last, value);
       return !(first == last) && !(value < *first);
    }
 
    template<class ForwardIt, class T, class Compare>
    inline bool binary_search(ForwardIt first, ForwardIt last, const T &value, Compare comp)
    {
-       first = lower_bound(first, last, value, comp);
+       first = ttl::lower_bound(first, last, value, comp);
        return !(first == last) && !comp(value, *first);
    }
 
    template<class ForwardIt, class T>
    pair<ForwardIt,ForwardIt> equal_range(ForwardIt first, ForwardIt last, const T &value)
    {
-      ForwardIt low = lower_bound(first, last, value);
-      return make_pair(low, upper_bound(low, last, value));
+      ForwardIt low = ttl::lower_bound(first, last, value);
+      return ttl::make_pair(low, ttl::upper_bound(low, last, value));
    }
 
    template<class ForwardIt, class T, class Compare>
    pair<ForwardIt,ForwardIt> equal_range(ForwardIt first, ForwardIt last, const T &value, Compare comp)
    {
-      ForwardIt low = lower_bound(first, last, value, comp);
-      return make_pair(low, upper_bound(low, last, value, comp));
+      ForwardIt low = ttl::lower_bound(first, last, value, comp);
+      return ttl::make_pair(low, ttl::upper_bound(low, last, value, comp));
    }
 
    //
@@ -627,7 +627,7 @@ namespace ttl
    template<class ForwardIt>
    bool is_sorted(ForwardIt first, ForwardIt last)
    {
-      return is_sorted_until(first, last) == last;
+      return ttl::is_sorted_until(first, last) == last;
    }
 
    //
@@ -722,7 +722,7 @@ namespace ttl
    ttl::pair<ForwardIt, ForwardIt> minmax_element(ForwardIt first, ForwardIt last)
    {
       // TODO: optimize
-      return ttl::pair<ForwardIt, ForwardIt>(min_element(first, last), max_element(first, last));
+      return ttl::pair<ForwardIt, ForwardIt>(ttl::min_element(first, last), ttl::max_element(first, last));
    }
 }
 #endif // _TINY_TEMPLATE_LIBRARY_ALGORITHM_HPP_
-- 
2.43.0


From 67b116387012ab644a5ef3a0bacb9cfc9227969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:38 +0000
Subject: [PATCH 43/53] fix: the elements of fixed_vector were not aligned for
 element types with a stricter alignment than a pointer (long double,
 alignas(16))

---
 ttl/fixed_vector.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 1168eec..7c3b70e 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -34,7 +34,13 @@ namespace ttl
       typedef ttl::ptrdiff_t difference_type;
 
    private:
+#if __cplusplus >= 201103L
+      alignas(T) union { char b[sizeof(T)]; } bytes_[N];
+#elif defined(__GNUC__)
+      union { char b[sizeof(T)]; } bytes_[N] __attribute__((aligned(__alignof__(T))));
+#else
       union { char b[sizeof(T)]; } bytes_[N];
+#endif
       T *last_;
       T *elements() const { return (T *)bytes_; }
       T *end_of_elements() const { return (T *)(bytes_ + N); }
-- 
2.43.0


From 425f66cc522bf01838a15549c9799b22786c5c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 44/53] fix: vector and fixed_vector did not compile for
 element types with an operator new of their own

---
 ttl/fixed_vector.hpp | 6 +++---
 ttl/vector.hpp       | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 7c3b70e..6f654ab 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -66,7 +66,7 @@ namespace ttl
       {
          clear();
          for (; first != last && !full(); ++first)
-            new(last_++) T(*first);
+            ::new(last_++) T(*first);
       }
 
       iterator       begin() { return elements(); }
@@ -116,7 +116,7 @@ namespace ttl
       void push_back(const value_type &x)
       {
          if (!full())
-            new(last_++) T(x);
+            ::new(last_++) T(x);
       }
 
       void pop_back()
@@ -297,7 +297,7 @@ namespace ttl
       ttl::swap_ranges(a.elements(), a.elements() + minsiz, b.elements());
       T *e = b.elements() + minsiz;
       while (e < b.last_)
-         new (a.last_++) T(*e++);
+         ::new(a.last_++) T(*e++);
       b.last_ = b.elements() + minsiz;
       while (e > b.last_)
          (--e)->~T();
diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index 914987c..c9fadc7 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -143,7 +143,7 @@ namespace ttl
       void push_back(const value_type &x)
       {
          if (last_ < end_of_elements_)
-            new(last_++) T(x);
+            ::new(last_++) T(x);
          else
             insert(end(), (size_type)1, x);
       }
-- 
2.43.0


From 949926f5e2d56c77379e18a80c880fe878276166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:48 +0000
Subject: [PATCH 45/53] fix: resize(n, value) of vector and fixed_vector did
 not compile for element types without a default constructor

---
 ttl/fixed_vector.hpp | 2 +-
 ttl/vector.hpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index 6f654ab..e1a7c35 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -87,7 +87,7 @@ namespace ttl
       void resize(size_type new_size, const value_type &x)
       {
          if (new_size < size())
-            resize(new_size);
+            do pop_back(); while (new_size < size());
          else
             insert(end(), new_size - size(), x);
       }
diff --git a/ttl/vector.hpp b/ttl/vector.hpp
index c9fadc7..8a2b750 100644
--- a/ttl/vector.hpp
+++ b/ttl/vector.hpp
@@ -101,7 +101,7 @@ namespace ttl
       void resize(size_type new_size, const value_type &x)
       {
          if (new_size < size())
-            resize(new_size);
+            do pop_back(); while (new_size < size());
          else
             insert(end(), new_size - size(), x);
       }
-- 
2.43.0


From 4335d270214147fc3a2b6b81f807cb41b19d0e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:52 +0000
Subject: [PATCH 46/53] fix: the equality operators of set did not exist for
 sets with a comparison of their own

---
 ttl/set.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttl/set.hpp b/ttl/set.hpp
index cdb3ac6..a5a370d 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -291,13 +291,13 @@ namespace ttl
    template<class InputIt1, class InputIt2>
    bool equal(InputIt1, InputIt1, InputIt2, InputIt2);
 
-   template <typename T>
-   bool operator==(const set<T> &a, const set<T> &b)
+   template <typename T, typename Compare>
+   bool operator==(const set<T,Compare> &a, const set<T,Compare> &b)
    {
       return ttl::equal(a.begin(), a.end(), b.begin(), b.end());
    }
-   template <typename T>
-   bool operator!=(const set<T> &a, const set<T> &b)
+   template <typename T, typename Compare>
+   bool operator!=(const set<T,Compare> &a, const set<T,Compare> &b)
    {
       return !(a == b);
    }
-- 
2.43.0


From 2a1ea3285a9288ac0636d4b2820b57dc990055c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:55 +0000
Subject: [PATCH 47/53] fix: the member type reference of the iterators of map,
 set and sorted_vector_map was a pointer, and the ones of their
 const_iterators were not const

---
 ttl/map.hpp               | 6 +++---
 ttl/set.hpp               | 6 +++---
 ttl/sorted_vector_map.hpp | 6 +++---
 3 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/ttl/map.hpp b/ttl/map.hpp
index 9f0813e..89b7087 100644
--- a/ttl/map.hpp
+++ b/ttl/map.hpp
@@ -57,7 +57,7 @@ namespace ttl
          typedef map<KT,T,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
          typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef value_type &reference;
 
          value_type &operator*() const { return ptr_->data; }
          value_type *operator->() const { return &ptr_->data; }
@@ -97,8 +97,8 @@ namespace ttl
       public:
          typedef map<KT,T,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
-         typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef const value_type *pointer;
+         typedef const value_type &reference;
 
          const value_type &operator*() const { return ptr_->data; }
          const value_type *operator->() const { return &ptr_->data; }
diff --git a/ttl/set.hpp b/ttl/set.hpp
index a5a370d..8ed9add 100644
--- a/ttl/set.hpp
+++ b/ttl/set.hpp
@@ -45,7 +45,7 @@ namespace ttl
          typedef set<KT,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
          typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef value_type &reference;
 
          value_type &operator*() const { return ptr_->data; }
          value_type *operator->() const { return &ptr_->data; }
@@ -85,8 +85,8 @@ namespace ttl
       public:
          typedef set<KT,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
-         typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef const value_type *pointer;
+         typedef const value_type &reference;
 
          const value_type &operator*() const { return ptr_->data; }
          const value_type *operator->() const { return &ptr_->data; }
diff --git a/ttl/sorted_vector_map.hpp b/ttl/sorted_vector_map.hpp
index eced061..0d5abcb 100644
--- a/ttl/sorted_vector_map.hpp
+++ b/ttl/sorted_vector_map.hpp
@@ -41,7 +41,7 @@ namespace ttl
          typedef sorted_vector_map<KT,T,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
          typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef value_type &reference;
 
          value_type &operator*() const { return **ptr_; }
          value_type *operator->() const { return *ptr_; }
@@ -65,8 +65,8 @@ namespace ttl
       public:
          typedef sorted_vector_map<KT,T,Compare>::value_type value_type;
          typedef ttl::ptrdiff_t difference_type;
-         typedef value_type *pointer;
-         typedef value_type *reference;
+         typedef const value_type *pointer;
+         typedef const value_type &reference;
 
          const value_type &operator*() const { return **ptr_; }
          const value_type *operator->() const { return *ptr_; }
-- 
2.43.0


From b2320d6509ddba460986db21a3868d3974a94423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:02 +0000
Subject: [PATCH 48/53] fix: insert of n copies into a fixed_vector wraps
 around for counts near the largest size_t

---
 ttl/fixed_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ttl/fixed_vector.hpp b/ttl/fixed_vector.hpp
index e1a7c35..a0610f9 100644
--- a/ttl/fixed_vector.hpp
+++ b/ttl/fixed_vector.hpp
@@ -207,6 +207,8 @@ namespace ttl
    typename fixed_vector<T,N>::iterator fixed_vector<T,N>::insert(const_iterator pos, size_type n, const value_type &x)
    {
       difference_type dist = pos - cbegin();
+      if (n > max_size()) // more never fits, and last_ + n has to be an address
+         n = max_size();
       if (n)
       {
          T *o;
-- 
2.43.0


From 11eaa26cd8557048526d856a32fdf6305273179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:06 +0000
Subject: [PATCH 49/53] fix: iter_swap, swap_ranges and reverse (so the swap of
 array and fixed_vector) of elements of a namespace with a swap for every
 type, as std has, did not compile

---
 ttl/algorithm.hpp | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 9fad1b5..f649cf6 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -298,10 +298,39 @@ namespace ttl
    // Modifying sequence operations
    //
 
+   // The swap of the namespaces of the elements, if they have one, or ttl::swap.
+   // A namespace can have one for every type (std does), which is no better
+   // than ttl::swap for its types.
+   namespace element_swap
+   {
+      // less specialized than any other, and hides ttl::swap
+      template<class T1, class T2> inline void swap(T1 &a, T2 &b) { ttl::swap(a, b); }
+
+      // elements of ttl which have something of such a namespace as well
+      template<class iterator1, class iterator2> struct is_ambiguous
+      {
+         template<class I1, class I2>
+         static char test(char (*)[sizeof(swap(**static_cast<I1 *>(0), **static_cast<I2 *>(0)), 0)]);
+         template<class I1, class I2>
+         static long test(...);
+         enum { value = sizeof(test<iterator1, iterator2>(0)) != 1 };
+      };
+      template<bool ambiguous> struct call
+      {
+         template<class iterator1, class iterator2>
+         static void apply(iterator1 &a, iterator2 &b) { swap(*a, *b); }
+      };
+      template<> struct call<true>
+      {
+         template<class iterator1, class iterator2>
+         static void apply(iterator1 &a, iterator2 &b) { ttl::swap(*a, *b); }
+      };
+   }
+
    template<class iterator1, class iterator2>
    inline void iter_swap(iterator1 a, iterator2 b)
    {
-      swap(*a, *b);
+      element_swap::call<element_swap::is_ambiguous<iterator1, iterator2>::value>::apply(a, b);
    }
 
    template<class iterator1, class iterator2>
@@ -485,7 +514,7 @@ namespace ttl
    void reverse(BidirIt first, BidirIt last)
    {
       for (; first != last && first != --last; ++first)
-         swap(*first, *last);
+         ttl::iter_swap(first, last);
    }
 
    template<class BidirIt, class OutputIt>
-- 
2.43.0


From 4f4f6341b94979d395076e7b074dded0edab6b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:27 +0000
Subject: [PATCH 50/53] fix: lower_bound, upper_bound, equal_range and
 binary_search of more than INT_MAX elements looked at places outside of the
 range

---
 ttl/algorithm.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index f649cf6..27ff63b 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -532,9 +532,9 @@ namespace ttl
    template<class ForwardIt, class T>
    ForwardIt lower_bound(ForwardIt first, ForwardIt last, const T &value)
    {
-      for (int count = last - first; count > 0;)
+      for (ttl::ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         ttl::ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it = first + step;
          if (*it < value)
@@ -551,9 +551,9 @@ namespace ttl
    template<class ForwardIt, class T, class Compare>
    ForwardIt lower_bound(ForwardIt first, ForwardIt last, const T &value, Compare comp)
    {
-      for (int count = last - first; count > 0;)
+      for (ttl::ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         ttl::ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it += step;
          if (comp(*it, value))
@@ -570,9 +570,9 @@ namespace ttl
    template<class ForwardIt, class T>
    ForwardIt upper_bound(ForwardIt first, ForwardIt last, const T &value)
    {
-      for (int count = last - first; count > 0;)
+      for (ttl::ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         ttl::ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it += step;
          if (!(value < *it))
@@ -589,9 +589,9 @@ namespace ttl
    template<class ForwardIt, class T, class Compare>
    ForwardIt upper_bound(ForwardIt first, ForwardIt last, const T &value, Compare comp)
    {
-      for (int count = last - first; count > 0;)
+      for (ttl::ptrdiff_t count = last - first; count > 0;)
       {
-         int step = count / 2;
+         ttl::ptrdiff_t step = count / 2;
          ForwardIt it = first;
          it += step;
          if (!comp(value, *it))
-- 
2.43.0


From 8872fe3069385521cfd3d628ea479c70fa387789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:31 +0000
Subject: [PATCH 51/53] fix: distance of more than INT_MAX elements was another
 number

---
 ttl/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ttl/utility.hpp b/ttl/utility.hpp
index 416bbb2..aa46b55 100644
--- a/ttl/utility.hpp
+++ b/ttl/utility.hpp
@@ -26,7 +26,7 @@ namespace ttl
 #endif
 
    template<typename RandomAccessIterator>
-   inline int distance(RandomAccessIterator first, RandomAccessIterator last)
+   inline ttl::ptrdiff_t distance(RandomAccessIterator first, RandomAccessIterator last)
    {
       return last - first;
    }
-- 
2.43.0


From 318342bbe5d3581477ae49a8d706458fa719832a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:36 +0000
Subject: [PATCH 52/53] fix: count and count_if of more than INT_MAX elements
 overflowed

---
 ttl/algorithm.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ttl/algorithm.hpp b/ttl/algorithm.hpp
index 27ff63b..d21cc8f 100644
--- a/ttl/algorithm.hpp
+++ b/ttl/algorithm.hpp
@@ -154,9 +154,9 @@ namespace ttl
    }
 
    template<class InputIt, class T>
-   /* InputIt::difference_type */ int count(InputIt first, InputIt last, const T &value)
+   /* InputIt::difference_type */ ttl::ptrdiff_t count(InputIt first, InputIt last, const T &value)
    {
-      int c = 0;
+      ttl::ptrdiff_t c = 0;
       for (; first != last; ++first)
          if (*first == value)
             ++c;
@@ -164,9 +164,9 @@ namespace ttl
    }
 
    template<class InputIt, class UnaryPredicate>
-   /* InputIt::difference_type */ int count_if(InputIt first, InputIt last, UnaryPredicate p)
+   /* InputIt::difference_type */ ttl::ptrdiff_t count_if(InputIt first, InputIt last, UnaryPredicate p)
    {
-      int c = 0;
+      ttl::ptrdiff_t c = 0;
       for (; first != last; ++first)
          if (p(*first))
             ++c;
-- 
2.43.0


From 6399221fe00a66e2d90ecacbd1372fbe7a8433c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:42 +0000
Subject: [PATCH 53/53] fix: shifts of a bitset of more than UINT_MAX bits took
 the bits from other places

---
 ttl/bitset.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ttl/bitset.hpp b/ttl/bitset.hpp
index d0e98c8..6a9e7c0 100644
--- a/ttl/bitset.hpp
+++ b/ttl/bitset.hpp
@@ -327,7 +327,7 @@ namespace ttl
    bitset<N> bitset<N>::operator<<(ttl::size_t pos) const
    {
       bitset<N> other;
-      for (unsigned i = 0; pos < N; ++i, ++pos)
+      for (ttl::size_t i = 0; pos < N; ++i, ++pos)
          if (test(i))
             other.set(pos);
       return other;
@@ -344,7 +344,7 @@ namespace ttl
    bitset<N> bitset<N>::operator>>(ttl::size_t pos) const
    {
       bitset<N> other;
-      for (unsigned i = 0; pos < N; ++i, ++pos)
+      for (ttl::size_t i = 0; pos < N; ++i, ++pos)
          if (test(pos))
             other.set(i);
       return other;
-- 
2.43.0

