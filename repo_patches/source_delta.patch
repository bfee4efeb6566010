From f98afc739b8804828970bf81e968b344a3a4f84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:10 +0000
Subject: [PATCH 01/51] fix: no_whitespace() restores automatic whitespace
 skipping when its rule fails, returns early, or is nested

---
 include/lexy/dsl/whitespace.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/lexy/dsl/whitespace.hpp b/include/lexy/dsl/whitespace.hpp
index 171df52..0166b2c 100644
--- a/include/lexy/dsl/whitespace.hpp
+++ b/include/lexy/dsl/whitespace.hpp
@@ -241,10 +241,11 @@ struct _wsn : _copy_base<Rule>
     struct _pc
     {
         template <typename Context, typename Reader, typename... Args>
-        LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
+        LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, bool previous,
+                                           Args&&... args)
         {
-            // Enable automatic whitespace skipping again.
-            context.control_block->enable_whitespace_skipping = true;
+            // Enable automatic whitespace skipping again, if it was enabled before.
+            context.control_block->enable_whitespace_skipping = previous;
             // And skip whitespace once.
             return lexy::whitespace_parser<Context, NextParser>::parse(context, reader,
                                                                        LEXY_FWD(args)...);
@@ -274,8 +275,14 @@ struct _wsn : _copy_base<Rule>
         LEXY_PARSER_FUNC auto finish(Context& context, Reader& reader, Args&&... args)
         {
             // Finish the rule with whitespace skipping disabled.
-            context.control_block->enable_whitespace_skipping = false;
-            return rule.template finish<_pc<NextParser>>(context, reader, LEXY_FWD(args)...);
+            auto& enabled  = context.control_block->enable_whitespace_skipping;
+            auto  previous = enabled;
+            enabled        = false;
+            auto result    = rule.template finish<_pc<NextParser>>(context, reader, previous,
+                                                                LEXY_FWD(args)...);
+            // The rule might have failed or returned early, in which case we need to restore it.
+            enabled = previous;
+            return result;
         }
     };
 
@@ -296,9 +303,14 @@ struct _wsn : _copy_base<Rule>
             else
             {
                 // Parse the rule with whitespace skipping disabled.
-                context.control_block->enable_whitespace_skipping = false;
-                using parser = lexy::parser_for<Rule, _pc<NextParser>>;
-                return parser::parse(context, reader, LEXY_FWD(args)...);
+                auto& enabled  = context.control_block->enable_whitespace_skipping;
+                auto  previous = enabled;
+                enabled        = false;
+                using parser   = lexy::parser_for<Rule, _pc<NextParser>>;
+                auto result    = parser::parse(context, reader, previous, LEXY_FWD(args)...);
+                // The rule might have failed or returned early, in which case we need to restore it.
+                enabled = previous;
+                return result;
             }
         }
     };
-- 
2.43.0


From b783778e0f2ed5fc1a37a599101a01395a378a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:38:37 +0000
Subject: [PATCH 02/51] fix: no_whitespace() disables whitespace skipping of
 nested productions in non-whitespace productions too

---
 include/lexy/dsl/whitespace.hpp | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/include/lexy/dsl/whitespace.hpp b/include/lexy/dsl/whitespace.hpp
index 0166b2c..0823ea5 100644
--- a/include/lexy/dsl/whitespace.hpp
+++ b/include/lexy/dsl/whitespace.hpp
@@ -292,26 +292,17 @@ struct _wsn : _copy_base<Rule>
         template <typename Context, typename Reader, typename... Args>
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
-            using whitespace = lexy::production_whitespace<typename Context::production,
-                                                           typename Context::whitespace_production>;
-            if constexpr (std::is_void_v<whitespace>)
-            {
-                // No whitespace, just parse the rule normally.
-                return lexy::parser_for<Rule, NextParser>::parse(context, reader,
-                                                                 LEXY_FWD(args)...);
-            }
-            else
-            {
-                // Parse the rule with whitespace skipping disabled.
-                auto& enabled  = context.control_block->enable_whitespace_skipping;
-                auto  previous = enabled;
-                enabled        = false;
-                using parser   = lexy::parser_for<Rule, _pc<NextParser>>;
-                auto result    = parser::parse(context, reader, previous, LEXY_FWD(args)...);
-                // The rule might have failed or returned early, in which case we need to restore it.
-                enabled = previous;
-                return result;
-            }
+            // Parse the rule with whitespace skipping disabled.
+            // We need to do that even if the current production doesn't skip whitespace,
+            // as the rule can parse productions that do.
+            auto& enabled  = context.control_block->enable_whitespace_skipping;
+            auto  previous = enabled;
+            enabled        = false;
+            using parser   = lexy::parser_for<Rule, _pc<NextParser>>;
+            auto result    = parser::parse(context, reader, previous, LEXY_FWD(args)...);
+            // The rule might have failed or returned early, in which case we need to restore it.
+            enabled = previous;
+            return result;
         }
     };
 };
-- 
2.43.0


From 4ae0cc4f8e087b122f429206dc9b1a9f44fd0fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:27 +0000
Subject: [PATCH 03/51] fix: restore the recursion depth when a recursive
 production fails

---
 include/lexy/dsl/production.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/lexy/dsl/production.hpp b/include/lexy/dsl/production.hpp
index 8e4b19f..d1ad286 100644
--- a/include/lexy/dsl/production.hpp
+++ b/include/lexy/dsl/production.hpp
@@ -200,9 +200,16 @@ struct _recb : branch_base
         LEXY_PARSER_FUNC bool finish(Context& context, Reader& reader, Args&&... args)
         {
             using depth = _depth_handler<NextParser>;
+            auto control_block  = context.control_block;
+            auto previous_depth = control_block->cur_depth;
             if (!depth::increment_depth(context, reader))
                 return false;
-            return _impl.template finish<depth>(context, reader, LEXY_FWD(args)...);
+            if (_impl.template finish<depth>(context, reader, LEXY_FWD(args)...))
+                return true;
+
+            // We've failed, so the depth might not have been decremented.
+            control_block->cur_depth = previous_depth;
+            return false;
         }
     };
 
@@ -213,11 +220,18 @@ struct _recb : branch_base
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
             using depth = _depth_handler<NextParser>;
+            auto control_block  = context.control_block;
+            auto previous_depth = control_block->cur_depth;
             if (!depth::increment_depth(context, reader))
                 return false;
 
-            return lexy::parser_for<_prd<Production>, depth>::parse(context, reader,
-                                                                    LEXY_FWD(args)...);
+            using parser = lexy::parser_for<_prd<Production>, depth>;
+            if (parser::parse(context, reader, LEXY_FWD(args)...))
+                return true;
+
+            // We've failed, so the depth might not have been decremented.
+            control_block->cur_depth = previous_depth;
+            return false;
         }
     };
 
-- 
2.43.0


From ca5449ac04ab08f1fd6d6c98f777e8366e24ca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:36 +0000
Subject: [PATCH 04/51] fix: parse tree unwinding to the end of a block no
 longer discards the entire block

---
 include/lexy/parse_tree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 20f3fe9..0f4535e 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -300,7 +300,7 @@ public:
         // Note: this is not guaranteed to work by the standard;
         // We'd have to go through std::less instead.
         // However, on all implementations I care about, std::less just does < anyway.
-        if (_cur_block->memory <= pos && pos < _cur_block->end())
+        if (_cur_block->memory <= pos && pos <= _cur_block->end())
             // We're still in the same block, just reset position.
             _cur_pos = pos;
         else
-- 
2.43.0


From 556f2ba0da2304b6d08a9192cca0b9f2de3f37f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:36 +0000
Subject: [PATCH 05/51] fix: do not leak memory blocks when a parse tree is
 re-used

---
 include/lexy/parse_tree.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 0f4535e..dd4f32e 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -267,10 +267,11 @@ public:
     {
         if (remaining_capacity() < size)
         {
-            auto next        = block::allocate(_resource);
-            _cur_block->next = next;
-            _cur_block       = next;
-            _cur_pos         = &_cur_block->memory[0];
+            // Re-use the following block if we still have one from before a reset().
+            if (!_cur_block->next)
+                _cur_block->next = block::allocate(_resource);
+            _cur_block = _cur_block->next;
+            _cur_pos   = &_cur_block->memory[0];
         }
     }
 
-- 
2.43.0


From 0426f26c77fee4d2e8d83d8102e08cbc893907b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:36 +0000
Subject: [PATCH 06/51] fix: parse_tree::clear() resets the size

---
 include/lexy/parse_tree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index dd4f32e..29844e0 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -368,7 +368,9 @@ public:
     void clear() noexcept
     {
         _buffer.reset();
-        _root = nullptr;
+        _root  = nullptr;
+        _size  = 0;
+        _depth = 0;
     }
 
     //=== node access ===//
-- 
2.43.0


From a635446d2abcd19283ad5375caf7fb8b1c58675b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:36 +0000
Subject: [PATCH 07/51] fix: reserve memory for the child pointer of a parse
 tree container

---
 include/lexy/parse_tree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 29844e0..9b27500 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -643,6 +643,7 @@ public:
             //
             // If our parent is another container, its start_container() function took care of it.
             // If our parent already has a child, the first_child pointer is taken care of.
+            _result._buffer.reserve(sizeof(_detail::pt_node<Reader>*));
             _result._buffer.template allocate<_detail::pt_node<Reader>*>(nullptr);
         }
 
-- 
2.43.0


From 210df7512a3d918c019a22145f46d3a09775315c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:36 +0000
Subject: [PATCH 08/51] fix: nodes of a cancelled production or container do
 not count for the parse tree size

---
 include/lexy/parse_tree.hpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 9b27500..2716a26 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -445,10 +445,13 @@ public:
         // The maximum local depth seen in the subtree beginning at the marker.
         std::size_t local_max_depth;
 
+        // The size of the tree when the marker was returned to the user.
+        std::size_t tree_size;
+
         explicit marker(void* unwind_pos, std::size_t cur_depth,
                         _detail::pt_node_production<Reader>* prod = nullptr)
         : unwind_pos(unwind_pos), prod(prod), child_count(0), first_child(nullptr),
-          last_child(nullptr), cur_depth(cur_depth), local_max_depth(cur_depth)
+          last_child(nullptr), cur_depth(cur_depth), local_max_depth(cur_depth), tree_size(0)
         {}
 
         void clear()
@@ -600,8 +603,9 @@ public:
         // Note: don't append the node yet, we might still backtrack.
 
         // Subsequent insertions are to the new node, so update marker and return old one.
-        auto old = LEXY_MOV(_cur);
-        _cur     = marker(node, old.cur_depth + 1, node);
+        auto old      = LEXY_MOV(_cur);
+        old.tree_size = _result._size;
+        _cur          = marker(node, old.cur_depth + 1, node);
         return old;
     }
 
@@ -628,6 +632,8 @@ public:
             return;
 
         _result._buffer.unwind(_cur.unwind_pos);
+        // Nodes that were already finished are no longer part of the tree.
+        _result._size = m.tree_size;
         // Continue with parent.
         _cur = LEXY_MOV(m);
     }
@@ -648,8 +654,9 @@ public:
         }
 
         // Create a new container marker and activate it.
-        auto old = LEXY_MOV(_cur);
-        _cur     = marker(unwind_pos, old.cur_depth);
+        auto old      = LEXY_MOV(_cur);
+        old.tree_size = _result._size;
+        _cur          = marker(unwind_pos, old.cur_depth);
         return old;
     }
 
@@ -713,6 +720,8 @@ public:
 
         // Deallocate everything we've inserted.
         _result._buffer.unwind(_cur.unwind_pos);
+        // Nodes that were already finished are no longer part of the tree.
+        _result._size = m.tree_size;
         // Continue with parent.
         _cur = LEXY_MOV(m);
     }
-- 
2.43.0


From b567be1939c43f82103dec9368c581535b3b3d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:36 +0000
Subject: [PATCH 09/51] fix: cancelling a transparent production removes its
 nodes from the parse tree

---
 include/lexy/parse_tree.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 2716a26..8b349dc 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -589,8 +589,12 @@ public:
     auto start_production(production_info production)
     {
         if (production.is_transparent)
+        {
             // Don't need to add a new node for a transparent production.
-            return _cur;
+            auto old      = _cur;
+            old.tree_size = _result._size;
+            return old;
+        }
 
         // Allocate a node for the production and append it to the current child list.
         // We reserve enough memory to allow for a trailing pointer.
@@ -628,8 +632,13 @@ public:
     {
         LEXY_PRECONDITION(_cur.prod || m.prod == _cur.prod);
         if (_cur.prod == m.prod)
-            // We're backtracking a transparent production, do nothing.
+        {
+            // We're backtracking a transparent production,
+            // remove all children that were added to its parent in the meantime.
+            _result._size = m.tree_size;
+            _cur          = LEXY_MOV(m);
             return;
+        }
 
         _result._buffer.unwind(_cur.unwind_pos);
         // Nodes that were already finished are no longer part of the tree.
-- 
2.43.0


From e72dcdc58231aac9bc819431d0220099195d485c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:06 +0000
Subject: [PATCH 10/51] fix: compute the matched prefix of a literal using the
 character type of the input

---
 include/lexy/dsl/literal.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/literal.hpp b/include/lexy/dsl/literal.hpp
index d57c189..11e6e6d 100644
--- a/include/lexy/dsl/literal.hpp
+++ b/include/lexy/dsl/literal.hpp
@@ -42,7 +42,8 @@ constexpr auto match_literal(Reader& reader)
         }
         else
         {
-            auto partial = swar_find_difference<CharT>(reader.peek_swar() & pack.mask, pack.value);
+            auto partial
+                = swar_find_difference<char_type>(reader.peek_swar() & pack.mask, pack.value);
             reader.bump_swar(partial);
             return false;
         }
-- 
2.43.0


From 071afd253f32cd1f49a0b076b7e28939b29b4179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:24 +0000
Subject: [PATCH 11/51] fix: digits with separator check for a separator after
 digits consumed using SWAR

---
 include/lexy/dsl/digit.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/lexy/dsl/digit.hpp b/include/lexy/dsl/digit.hpp
index 7a21a9f..f26ae92 100644
--- a/include/lexy/dsl/digit.hpp
+++ b/include/lexy/dsl/digit.hpp
@@ -337,8 +337,15 @@ constexpr bool _match_digits_sep(Reader& reader)
             if constexpr (lexy::_detail::is_swar_reader<Reader>)
             {
                 using char_type = typename Reader::encoding::char_type;
+                auto had_swar   = false;
                 while (Base::template swar_matches<char_type>(reader.peek_swar()))
+                {
                     reader.bump_swar();
+                    had_swar = true;
+                }
+                if (had_swar)
+                    // We might have a separator after the digits we've just consumed.
+                    continue;
             }
 
             if (!lexy::try_match_token(digit<Base>, reader))
-- 
2.43.0


From 80ad7865a941210ec1e6051507c740ff1076f17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:51 +0000
Subject: [PATCH 12/51] fix: delimited with an ASCII-only character class
 reports a non-ASCII character only once

---
 include/lexy/dsl/delimited.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/delimited.hpp b/include/lexy/dsl/delimited.hpp
index 82677b4..9802892 100644
--- a/include/lexy/dsl/delimited.hpp
+++ b/include/lexy/dsl/delimited.hpp
@@ -158,7 +158,19 @@ struct _del_chars
             LEXY_ASSERT(reader.peek() != encoding::eof(),
                         "EOF should be checked before calling this");
             auto recover_begin = reader.position();
-            reader.bump();
+            if constexpr (lexy::is_unicode_encoding<encoding>)
+            {
+                // It might be a non-ASCII character, discard all of it.
+                auto result = lexy::_detail::parse_code_point(reader);
+                if (recover_begin == result.end.position())
+                    reader.bump();
+                else
+                    reader.reset(result.end);
+            }
+            else
+            {
+                reader.bump();
+            }
             auto recover_end = reader.position();
 
             finish(context, sink, recover_begin);
-- 
2.43.0


From 408272329ca961d9aeb1f0f03e9e394b43a34ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:07 +0000
Subject: [PATCH 13/51] fix: delimited does not skip over a case-folded closing
 delimiter or escape character

---
 include/lexy/dsl/delimited.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/lexy/dsl/delimited.hpp b/include/lexy/dsl/delimited.hpp
index 9802892..99927d8 100644
--- a/include/lexy/dsl/delimited.hpp
+++ b/include/lexy/dsl/delimited.hpp
@@ -26,6 +26,15 @@ struct missing_delimiter
 
 namespace lexyd
 {
+// Whether the rule is a literal whose initial character has to match exactly.
+template <typename Rule>
+constexpr bool _del_exact_literal = [] {
+    if constexpr (lexy::is_literal_rule<Rule>)
+        return std::is_void_v<typename Rule::lit_case_folding>;
+    else
+        return false;
+}();
+
 template <typename CharClass, typename Reader>
 struct _del_chars
 {
@@ -54,11 +63,11 @@ struct _del_chars
     {
         using encoding = typename Reader::encoding;
 
-        // If we have a SWAR reader and the Close and Escape chars are literal rules,
+        // If we have a SWAR reader and the Close and Escape chars are (case sensitive) literal rules,
         // we can munch as much content as possible in a fast loop.
         // We also need to efficiently check for the CharClass for it to make sense.
         if constexpr (lexy::_detail::is_swar_reader<Reader> //
-                      && (lexy::is_literal_rule<Close> && ... && Escs::esc_is_literal)
+                      && (_del_exact_literal<Close> && ... && Escs::esc_is_literal)
                       && !std::is_same_v<
                           decltype(CharClass::template char_class_match_swar<encoding>({})),
                           std::false_type>)
@@ -379,7 +388,7 @@ namespace lexyd
 template <typename Escape, typename... Branches>
 struct _escape : _escape_base
 {
-    static constexpr bool esc_is_literal = lexy::is_literal_rule<Escape>;
+    static constexpr bool esc_is_literal = _del_exact_literal<Escape>;
     template <typename Encoding>
     static constexpr auto esc_first_char() -> typename Encoding::char_type
     {
-- 
2.43.0


From de9b72c0303ce22ff8293cb6cf5807276899dfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:26 +0000
Subject: [PATCH 14/51] fix: literal sets with Unicode case folding match code
 points that are not a single code unit

---
 include/lexy/dsl/case_folding.hpp | 1 +
 include/lexy/dsl/literal.hpp      | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/case_folding.hpp b/include/lexy/dsl/case_folding.hpp
index c01f50b..c144366 100644
--- a/include/lexy/dsl/case_folding.hpp
+++ b/include/lexy/dsl/case_folding.hpp
@@ -261,6 +261,7 @@ struct _sucfrm // simple unicode case folding reader, UTF-8 and UTF-16
     constexpr void reset(marker m) noexcept
     {
         _impl.reset(m);
+        _fill();
     }
 };
 
diff --git a/include/lexy/dsl/literal.hpp b/include/lexy/dsl/literal.hpp
index 11e6e6d..4db2467 100644
--- a/include/lexy/dsl/literal.hpp
+++ b/include/lexy/dsl/literal.hpp
@@ -256,7 +256,9 @@ struct lit_trie_matcher<Trie, CurNode>
             return false;
 
         reader.bump();
-        result = lit_trie_matcher<Trie, Trie.transition_to[TransIdx]>::try_match(reader);
+        // Note: `reader` already does case folding, so we must not go through `try_match()` again.
+        using next = lit_trie_matcher<Trie, Trie.transition_to[TransIdx]>;
+        result     = next::template _impl<>::try_match(reader);
         return true;
     }
 
-- 
2.43.0


From ca204eeed811538a7e3695f469a3f730ec62204a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:24 +0000
Subject: [PATCH 15/51] fix: context counters and flags produce a copy of their
 current value

---
 include/lexy/dsl/context_counter.hpp | 3 ++-
 include/lexy/dsl/context_flag.hpp    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/context_counter.hpp b/include/lexy/dsl/context_counter.hpp
index 1616871..d753f77 100644
--- a/include/lexy/dsl/context_counter.hpp
+++ b/include/lexy/dsl/context_counter.hpp
@@ -152,8 +152,9 @@ struct _ctx_cvalue : rule_base
         template <typename Context, typename Reader, typename... Args>
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
+            // Produce a copy, as the counter can still be modified before the value is used.
             return NextParser::parse(context, reader, LEXY_FWD(args)...,
-                                     _ctx_counter<Id>::get(context.control_block));
+                                     int(_ctx_counter<Id>::get(context.control_block)));
         }
     };
 };
diff --git a/include/lexy/dsl/context_flag.hpp b/include/lexy/dsl/context_flag.hpp
index b7b9151..c503568 100644
--- a/include/lexy/dsl/context_flag.hpp
+++ b/include/lexy/dsl/context_flag.hpp
@@ -97,8 +97,9 @@ struct _ctx_fvalue : rule_base
         template <typename Context, typename Reader, typename... Args>
         LEXY_PARSER_FUNC static bool parse(Context& context, Reader& reader, Args&&... args)
         {
+            // Produce a copy, as the flag can still be modified before the value is used.
             return NextParser::parse(context, reader, LEXY_FWD(args)...,
-                                     _ctx_flag<Id>::get(context.control_block));
+                                     bool(_ctx_flag<Id>::get(context.control_block)));
         }
     };
 };
-- 
2.43.0


From 5954b5cf7eddf66739c2f3a24882a69a2abf0311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:52 +0000
Subject: [PATCH 16/51] fix: decode UTF-16 surrogate pairs beyond U+1FFFF to
 the correct code point

---
 include/lexy/_detail/code_point.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/_detail/code_point.hpp b/include/lexy/_detail/code_point.hpp
index 88e7aa0..e0c581c 100644
--- a/include/lexy/_detail/code_point.hpp
+++ b/include/lexy/_detail/code_point.hpp
@@ -296,7 +296,7 @@ constexpr cp_result<Reader> parse_code_point(Reader reader)
             auto result = char32_t(first & payload1);
             result <<= 10;
             result |= char32_t(second & payload2);
-            result |= 0x10000;
+            result += 0x10000;
             return {result, cp_error::success, reader.current()};
         }
         else if ((first & ~payload2) == pattern2)
-- 
2.43.0


From c7528502d0297bc926c9426c650cb5fe0c5276d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:11 +0000
Subject: [PATCH 17/51] fix: ASCII graph and print do not match the EOF
 sentinel of a UTF-32 buffer

---
 include/lexy/dsl/ascii.hpp | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/lexy/dsl/ascii.hpp b/include/lexy/dsl/ascii.hpp
index 5076328..d02cbfb 100644
--- a/include/lexy/dsl/ascii.hpp
+++ b/include/lexy/dsl/ascii.hpp
@@ -383,13 +383,10 @@ struct _graph : char_class_base<_graph>
         if (((c + ascii_offset) & ascii_mask) != ascii_expected)
             return false;
 
-        // The above check also included 0xFF for single byte encodings where it overflowed,
-        // so do a separate check in those cases.
-        if constexpr (sizeof(char_type) == 1)
-        {
-            if ((c & ascii_mask) != ascii_expected)
-                return false;
-        }
+        // The above check also included the maximal code unit (e.g. 0xFF) where it overflowed,
+        // so do a separate check. This is necessary as it is also the EOF sentinel of buffers.
+        if ((c & ascii_mask) != ascii_expected)
+            return false;
 
         // Then we must not have a character in column 0, or space.
         // If we subtract one we turn 0x21-0x01 into column 0 and 0x00 to a value definitely not in
@@ -428,13 +425,10 @@ struct _print : char_class_base<_print>
         if (((c + ascii_offset) & ascii_mask) != ascii_expected)
             return false;
 
-        // The above check also included 0xFF for single byte encodings where it overflowed,
-        // so do a separate check in those cases.
-        if constexpr (sizeof(char_type) == 1)
-        {
-            if ((c & ascii_mask) != ascii_expected)
-                return false;
-        }
+        // The above check also included the maximal code unit (e.g. 0xFF) where it overflowed,
+        // so do a separate check. This is necessary as it is also the EOF sentinel of buffers.
+        if ((c & ascii_mask) != ascii_expected)
+            return false;
 
         // Then we must not have a character in column 0.
         constexpr auto mask = lexy::_detail::swar_fill_compl(char_type(0b11111));
-- 
2.43.0


From 9a1328322307c8c73b160b60277e01543e9d3913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:26 +0000
Subject: [PATCH 18/51] fix: reserve_suffix misses a suffix that starts inside
 an earlier partial match

---
 include/lexy/dsl/identifier.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/identifier.hpp b/include/lexy/dsl/identifier.hpp
index 906e132..db00c15 100644
--- a/include/lexy/dsl/identifier.hpp
+++ b/include/lexy/dsl/identifier.hpp
@@ -125,8 +125,10 @@ struct _idsp // reserve suffix predicate
         auto reader = input.reader();
         while (true)
         {
-            if (lexy::try_match_token(Set{}, reader)
-                && reader.peek() == decltype(reader)::encoding::eof())
+            // A match that ends too early must not consume anything: the suffix can start inside.
+            auto suffix = reader;
+            if (lexy::try_match_token(Set{}, suffix)
+                && suffix.peek() == decltype(suffix)::encoding::eof())
                 return true;
             else if (reader.peek() == decltype(reader)::encoding::eof())
                 return false;
-- 
2.43.0


From 345757ae3371ea5bf8a3e1b30fb7665f9a37c782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:01 +0000
Subject: [PATCH 19/51] fix: integer reports overflow when the maximal number
 of digits is followed by a non-digit

---
 include/lexy/dsl/integer.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/lexy/dsl/integer.hpp b/include/lexy/dsl/integer.hpp
index efa34d1..be1690c 100644
--- a/include/lexy/dsl/integer.hpp
+++ b/include/lexy/dsl/integer.hpp
@@ -338,6 +338,11 @@ struct _bounded_integer_parser
 
         // If we've reached this point, we've parsed the maximal number of digits allowed.
         // Now we can only overflow if there are still digits left.
+        if constexpr (!AssumeOnlyDigits)
+        {
+            while (cur != end && Base::digit_value(*cur) >= Base::digit_radix)
+                ++cur; // Skip digit separator.
+        }
         return {value, cur != end};
     }
 };
-- 
2.43.0


From 7fbd45426e45ebf8218e3781e27509e9440403c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:24 +0000
Subject: [PATCH 20/51] fix: compile operator tags constructed from parse state
 and position in expressions

---
 include/lexy/dsl/operator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/dsl/operator.hpp b/include/lexy/dsl/operator.hpp
index a783c01..fc2f49b 100644
--- a/include/lexy/dsl/operator.hpp
+++ b/include/lexy/dsl/operator.hpp
@@ -122,7 +122,8 @@ struct _op : branch_base
         else if constexpr (lexy::_detail::is_detected<_detect_op_tag_ctor_with_state, op_tag_type,
                                                       Reader, Context>)
             return continuation::parse(context, reader, LEXY_FWD(args)...,
-                                       op_tag_type(*context.control_block->parse_state, op.pos));
+                                       op_tag_type(*context.control_block->parse_state,
+                                                   op.cur.position()));
         else if constexpr (lexy::_detail::is_detected<_detect_op_tag_ctor, op_tag_type, Reader>)
             return continuation::parse(context, reader, LEXY_FWD(args)...,
                                        op_tag_type(op.cur.position()));
-- 
2.43.0


From 3ed8ec3a8069ae2e061c503811bb4181e828c00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:24 +0000
Subject: [PATCH 21/51] fix: don't invoke the sink of infix_op_list for a first
 operator without values

---
 include/lexy/dsl/expression.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lexy/dsl/expression.hpp b/include/lexy/dsl/expression.hpp
index 75bf05c..daa35cc 100644
--- a/include/lexy/dsl/expression.hpp
+++ b/include/lexy/dsl/expression.hpp
@@ -287,8 +287,9 @@ struct _expr : rule_base
                         sink(*LEXY_MOV(context.value));
                     context.value = {};
 
-                    // As well as the operator we've already got.
-                    sink(LEXY_FWD(op_args)...);
+                    // As well as the operator we've already got (if it produces any values).
+                    if constexpr (sizeof...(Args) > 0)
+                        sink(LEXY_FWD(op_args)...);
 
                     auto result = true;
                     while (true)
-- 
2.43.0


From 4be07ac59605a9df822d932cc6192b55f1bc6236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:07 +0000
Subject: [PATCH 22/51] fix: read an empty buffer that owns no memory as empty
 input instead of dereferencing null

---
 include/lexy/input/buffer.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/lexy/input/buffer.hpp b/include/lexy/input/buffer.hpp
index 4380528..f723f45 100644
--- a/include/lexy/input/buffer.hpp
+++ b/include/lexy/input/buffer.hpp
@@ -69,6 +69,21 @@ LEXY_INSTANTIATION_NEWTYPE(_br8, _br, lexy::utf8_encoding);
 LEXY_INSTANTIATION_NEWTYPE(_brc, _br, lexy::utf8_char_encoding);
 LEXY_INSTANTIATION_NEWTYPE(_br32, _br, lexy::utf32_encoding);
 
+// What the reader of a buffer that doesn't own any memory reads: just the EOF sentinel.
+template <typename Encoding>
+struct _empty_buffer
+{
+    typename Encoding::char_type data[_detail::round_size_for_swar(1)];
+
+    constexpr _empty_buffer() noexcept : data()
+    {
+        for (auto& c : data)
+            c = Encoding::eof();
+    }
+};
+template <typename Encoding>
+inline constexpr auto _empty_buffer_data = _empty_buffer<Encoding>{};
+
 // Create the appropriate buffer reader.
 template <typename Encoding>
 constexpr auto _buffer_reader(const typename Encoding::char_type* data)
@@ -265,7 +280,8 @@ public:
     auto reader() const& noexcept
     {
         if constexpr (_has_sentinel)
-            return _buffer_reader<encoding>(_data);
+            // A default constructed or moved-from buffer does not have any data.
+            return _buffer_reader<encoding>(_data ? _data : _empty_buffer_data<encoding>.data);
         else
             return _range_reader<encoding>(_data, _data + _size);
     }
-- 
2.43.0


From 1042e40f3e28f0e7ffd2668335874dd0ae9fe710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:07 +0000
Subject: [PATCH 23/51] fix: only treat 00 00 FE FF as the big endian UTF-32
 byte order mark

---
 include/lexy/input/buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/input/buffer.hpp b/include/lexy/input/buffer.hpp
index f723f45..6d3b014 100644
--- a/include/lexy/input/buffer.hpp
+++ b/include/lexy/input/buffer.hpp
@@ -456,7 +456,8 @@ struct _make_buffer<utf32_encoding, encoding_endianness::bom>
         {
             if (memory[0] == 0xFF && memory[1] == 0xFE && memory[2] == 0x00 && memory[3] == 0x00)
                 return utf32_little(memory + 4, size - 4, resource);
-            else if (memory[0] == 0x00 && memory[1] == 0x00 && memory[2] == 0xFE && memory[3])
+            else if (memory[0] == 0x00 && memory[1] == 0x00 && memory[2] == 0xFE
+                     && memory[3] == 0xFF)
                 return utf32_big(memory + 4, size - 4, resource);
         }
 
-- 
2.43.0


From bc91080872960ab4040bc143db12e1d67c8b9dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:04 +0000
Subject: [PATCH 24/51] fix: buffer_builder::grow() copied bytes instead of
 characters

---
 include/lexy/_detail/buffer_builder.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/_detail/buffer_builder.hpp b/include/lexy/_detail/buffer_builder.hpp
index f0f5b17..9fc10a2 100644
--- a/include/lexy/_detail/buffer_builder.hpp
+++ b/include/lexy/_detail/buffer_builder.hpp
@@ -91,7 +91,7 @@ public:
         // Allocate new memory.
         auto memory = static_cast<T*>(::operator new(new_cap * sizeof(T)));
         // Copy the read area into the new memory.
-        std::memcpy(memory, _data, _read_size);
+        std::memcpy(memory, _data, _read_size * sizeof(T));
 
         // Release the old memory, if there was any.
         if (_data != _stack_buffer)
-- 
2.43.0


From 9bf188776d2bb1b3a8bc9ceb98534e14033303f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:04 +0000
Subject: [PATCH 25/51] fix: reading a file that ends in an incomplete code
 unit is an error, not undefined behavior

---
 include/lexy/input/file.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/lexy/input/file.hpp b/include/lexy/input/file.hpp
index 65d5a40..db8f1df 100644
--- a/include/lexy/input/file.hpp
+++ b/include/lexy/input/file.hpp
@@ -96,14 +96,24 @@ struct _read_file_user_data
 {
     lexy::buffer<Encoding, MemoryResource> buffer;
     MemoryResource*                        resource;
+    file_error                             error;
 
-    _read_file_user_data(MemoryResource* resource) : buffer(resource), resource(resource) {}
+    _read_file_user_data(MemoryResource* resource)
+    : buffer(resource), resource(resource), error(file_error::_success)
+    {}
 
     static auto callback()
     {
         return [](void* _user_data, const char* memory, std::size_t size) {
             auto user_data = static_cast<_read_file_user_data*>(_user_data);
 
+            // The content does not consist of complete code units.
+            if (size % sizeof(typename Encoding::char_type) != 0)
+            {
+                user_data->error = file_error::os_error;
+                return;
+            }
+
             user_data->buffer
                 = lexy::make_buffer_from_raw<Encoding, Endian>(memory, size, user_data->resource);
         };
@@ -119,6 +129,8 @@ auto read_file(const char*     path,
 {
     _read_file_user_data<Encoding, Endian, MemoryResource> user_data(resource);
     auto error = _detail::read_file(path, user_data.callback(), &user_data);
+    if (error == file_error::_success)
+        error = user_data.error;
     return read_file_result(error, LEXY_MOV(user_data.buffer));
 }
 
@@ -130,6 +142,8 @@ auto read_stdin(MemoryResource* resource = _detail::get_memory_resource<MemoryRe
 {
     _read_file_user_data<Encoding, Endian, MemoryResource> user_data(resource);
     auto error = _detail::read_stdin(user_data.callback(), &user_data);
+    if (error == file_error::_success)
+        error = user_data.error;
     return read_file_result(error, LEXY_MOV(user_data.buffer));
 }
 } // namespace lexy
-- 
2.43.0


From 0c08f3095200a791691efc2c76ae51ff14fc18d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:56 +0000
Subject: [PATCH 26/51] fix: shell treated the end of input as a line and an
 unterminated line as the end of input

---
 include/lexy_ext/shell.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index 0e192c6..2d9ff1b 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -373,6 +373,7 @@ private:
         if (_buffer.write_size() < min_capacity)
             _buffer.grow();
 
+        auto did_read = false;
         for (auto reader = _prompt.read_line(); true;)
         {
             const auto buffer_size = _buffer.write_size();
@@ -381,9 +382,10 @@ private:
             // commiting what we've just read.
             const auto read = reader(_buffer.write_data(), buffer_size);
             _buffer.commit(read);
+            did_read |= read > 0;
 
             // Check whether we've read the entire line.
-            if (_buffer.write_data()[-1] == '\n')
+            if (read > 0 && _buffer.write_data()[-1] == '\n')
             {
                 LEXY_MOV(reader).done();
                 return true;
@@ -391,7 +393,8 @@ private:
             else if (read < buffer_size)
             {
                 LEXY_ASSERT(!_prompt.is_open(), "read error but prompt still open?!");
-                return false;
+                LEXY_MOV(reader).done();
+                return did_read; // The last line does not need to end in a newline.
             }
 
             // We've filled the entire buffer and need more space.
-- 
2.43.0


From c1e133f478a12eb3abda9ac09bcb3021d0730b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:56 +0000
Subject: [PATCH 27/51] fix: default_prompt could not read lines that fill the
 buffer or contain a null character

---
 include/lexy_ext/shell.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index 2d9ff1b..867ca76 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -101,13 +101,18 @@ struct default_prompt
     {
         std::size_t operator()(char_type* buffer, std::size_t size)
         {
-            LEXY_PRECONDITION(size > 1);
+            auto count = std::size_t(0);
+            while (count < size)
+            {
+                auto c = std::getc(stdin);
+                if (c == EOF)
+                    break;
 
-            auto memory = reinterpret_cast<char*>(buffer);
-            if (auto str = std::fgets(memory, int(size), stdin))
-                return std::strlen(str);
-            else
-                return 0;
+                buffer[count++] = static_cast<char_type>(c);
+                if (c == '\n')
+                    break;
+            }
+            return count;
         }
 
         void done() && {}
-- 
2.43.0


From 6a85d64eae31b151e2d968a146496cd68c29aa2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:56 +0000
Subject: [PATCH 28/51] fix: shell messages stopped at a null character and
 could not write an empty lexeme

---
 include/lexy_ext/shell.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index 867ca76..c2c6eb0 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -128,9 +128,10 @@ struct default_prompt
 
         void operator()(const char_type* buffer, std::size_t size)
         {
-            std::fprintf(stdout, "%.*s", int(size), reinterpret_cast<const char*>(buffer));
-            if (size > 0)
-                _last_was_newline = buffer[size - 1] == '\n';
+            if (size == 0)
+                return;
+            std::fwrite(buffer, sizeof(char_type), size, stdout);
+            _last_was_newline = buffer[size - 1] == '\n';
         }
 
         void done() &&
@@ -336,6 +337,9 @@ public:
 
         writer& operator()(lexy::lexeme_for<input> lexeme)
         {
+            if (lexeme.empty())
+                return *this;
+
             // We know that the iterator is contiguous.
             auto data = &*lexeme.begin();
             _writer(data, lexeme.size());
-- 
2.43.0


From 21ea3bdc3397ba5192e27f00c2579a2aa0191fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:19 +0000
Subject: [PATCH 29/51] fix: writing a lexeme to the shell did not compile

---
 include/lexy_ext/shell.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy_ext/shell.hpp b/include/lexy_ext/shell.hpp
index c2c6eb0..a776979 100644
--- a/include/lexy_ext/shell.hpp
+++ b/include/lexy_ext/shell.hpp
@@ -342,7 +342,7 @@ public:
 
             // We know that the iterator is contiguous.
             auto data = &*lexeme.begin();
-            _writer(data, lexeme.size());
+            _writer(data, lexy::_detail::range_size(lexeme.begin(), lexeme.end()));
             return *this;
         }
 
-- 
2.43.0


From 2d87770715bed04a399babc94bc29ad5d2a46fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:01 +0000
Subject: [PATCH 30/51] fix: siblings() of the root node visited the remaining
 input and crashed

---
 include/lexy/parse_tree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 8b349dc..0542d65 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -1012,6 +1012,10 @@ public:
 
         iterator begin() const noexcept
         {
+            // The next node of the root is the remaining input, which is not a sibling.
+            if (_pt_node(_node).kind().is_root())
+                return end();
+
             // We begin with the next node after ours.
             // If we don't have siblings, this is our node itself.
             return ++iterator(_node);
-- 
2.43.0


From 93111d36b4effb0cd6ec84cb4f8c39c3e2ea873c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:23 +0000
Subject: [PATCH 31/51] fix: comparing the node kinds of a token and a
 production dereferenced a null pointer

---
 include/lexy/parse_tree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 0542d65..ddecce0 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -815,8 +815,10 @@ public:
     {
         if (lhs.is_token() && rhs.is_token())
             return lhs._ptr->as_token()->kind == rhs._ptr->as_token()->kind;
-        else
+        else if (lhs.is_production() && rhs.is_production())
             return lhs._ptr->as_production()->id == rhs._ptr->as_production()->id;
+        else
+            return false;
     }
     friend bool operator!=(_pt_node_kind lhs, _pt_node_kind rhs)
     {
-- 
2.43.0


From 7cd7e6d03b7209f1859d93970a4bcf32e10056b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:14:46 +0000
Subject: [PATCH 32/51] fix: nodes of a parse tree with a custom memory
 resource could not be accessed

---
 include/lexy/parse_tree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index ddecce0..4b88e73 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -1113,7 +1113,8 @@ private:
 
     _detail::pt_node<Reader>* _ptr;
 
-    friend parse_tree<Reader, TokenKind>;
+    template <typename, typename, typename>
+    friend class parse_tree;
     friend parse_tree_input_traits<_pt_node<Reader, TokenKind>>;
 };
 
-- 
2.43.0


From f70b6fda4be67b7d4db7c7366880ab8902c20c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:26:18 +0000
Subject: [PATCH 33/51] fix: cancelling a transparent production kept the
 extension of a merged error token

---
 include/lexy/parse_tree.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index 4b88e73..d018784 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -447,11 +447,14 @@ public:
 
         // The size of the tree when the marker was returned to the user.
         std::size_t tree_size;
+        // If the last child is a token, its end when the marker was returned to the user.
+        typename Reader::iterator last_end;
 
         explicit marker(void* unwind_pos, std::size_t cur_depth,
                         _detail::pt_node_production<Reader>* prod = nullptr)
         : unwind_pos(unwind_pos), prod(prod), child_count(0), first_child(nullptr),
-          last_child(nullptr), cur_depth(cur_depth), local_max_depth(cur_depth), tree_size(0)
+          last_child(nullptr), cur_depth(cur_depth), local_max_depth(cur_depth), tree_size(0),
+          last_end()
         {}
 
         void clear()
@@ -593,6 +596,8 @@ public:
             // Don't need to add a new node for a transparent production.
             auto old      = _cur;
             old.tree_size = _result._size;
+            if (old.last_child && old.last_child->as_token())
+                old.last_end = old.last_child->as_token()->end();
             return old;
         }
 
@@ -637,6 +642,9 @@ public:
             // remove all children that were added to its parent in the meantime.
             _result._size = m.tree_size;
             _cur          = LEXY_MOV(m);
+            // An error token inside the production might have been merged into the last child.
+            if (_cur.last_child && _cur.last_child->as_token())
+                _cur.last_child->as_token()->update_end(_cur.last_end);
             return;
         }
 
-- 
2.43.0


From 744fef705fd1abfbbcfa3afe641e14f3ff797ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:50 +0000
Subject: [PATCH 34/51] fix: token kinds of an enum narrower than the
 predefined kinds violated a precondition

---
 include/lexy/token.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lexy/token.hpp b/include/lexy/token.hpp
index c08902e..fd07229 100644
--- a/include/lexy/token.hpp
+++ b/include/lexy/token.hpp
@@ -129,8 +129,9 @@ public:
     constexpr token_kind(_underlying_type value) noexcept
     : _value(static_cast<std::uint_least16_t>(value))
     {
-        LEXY_PRECONDITION(_underlying_type(0) <= value
-                          && value < _underlying_type(_smallest_predefined_token_kind));
+        // Note: the predefined kinds might not be representable by the type of the enum.
+        LEXY_PRECONDITION(0 <= static_cast<long long>(value)
+                          && static_cast<long long>(value) < _smallest_predefined_token_kind);
     }
 
     /// Creates the token kind of a token rule.
-- 
2.43.0


From 8a7c3524b12e2373475eecb6f63ac5c02da9cac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:21 +0000
Subject: [PATCH 35/51] fix: assertions rejected nodes at an end of input that
 is a default iterator

---
 include/lexy/parse_tree.hpp | 1 -
 include/lexy/token.hpp      | 4 +---
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/lexy/parse_tree.hpp b/include/lexy/parse_tree.hpp
index d018784..589031d 100644
--- a/include/lexy/parse_tree.hpp
+++ b/include/lexy/parse_tree.hpp
@@ -1094,7 +1094,6 @@ public:
         }
         auto end = _pt_node(sibling).position();
 
-        LEXY_PRECONDITION(begin == end || end != typename Reader::iterator());
         return lexy::lexeme<Reader>(begin, end);
     }
 
diff --git a/include/lexy/token.hpp b/include/lexy/token.hpp
index fd07229..615e648 100644
--- a/include/lexy/token.hpp
+++ b/include/lexy/token.hpp
@@ -233,9 +233,7 @@ public:
 
     explicit constexpr token(token_kind<TokenKind> kind, lexy::lexeme<Reader> lex) noexcept
     : _lexeme(lex), _kind(kind)
-    {
-        LEXY_PRECONDITION(lex.begin() != iterator());
-    }
+    {}
     explicit constexpr token(token_kind<TokenKind> kind, iterator begin, iterator end) noexcept
     : token(kind, lexy::lexeme<Reader>(begin, end))
     {}
-- 
2.43.0


From 734281533ea7543f18447745c27efa76513d9e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:33 +0000
Subject: [PATCH 36/51] fix: lexy::concat can be called without containers, as
 documented

---
 include/lexy/callback/container.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/lexy/callback/container.hpp b/include/lexy/callback/container.hpp
index a23c6b4..267edcc 100644
--- a/include/lexy/callback/container.hpp
+++ b/include/lexy/callback/container.hpp
@@ -314,6 +314,10 @@ struct _concat
     {
         return Container();
     }
+    constexpr Container operator()() const
+    {
+        return Container();
+    }
 
     template <typename... Tail>
     constexpr Container _call(Container&& head, Tail&&... tail) const
-- 
2.43.0


From 3a18d3985aecb84ae2fdb7807184988971b26c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:33 +0000
Subject: [PATCH 37/51] fix: Unicode case folding does not end at a stray code
 unit

---
 include/lexy/dsl/case_folding.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/lexy/dsl/case_folding.hpp b/include/lexy/dsl/case_folding.hpp
index c144366..fa82936 100644
--- a/include/lexy/dsl/case_folding.hpp
+++ b/include/lexy/dsl/case_folding.hpp
@@ -223,6 +223,14 @@ struct _sucfrm // simple unicode case folding reader, UTF-8 and UTF-16
                 ++_buffer_size;
                 _impl.bump();
             }
+
+            // If nothing of it could be consumed, the code unit itself is passed on as-is.
+            if (_buffer_size == 0 && _impl.peek() != encoding::eof())
+            {
+                _buffer[0]   = static_cast<typename encoding::char_type>(_impl.peek());
+                _buffer_size = 1;
+                _impl.bump();
+            }
         }
     }
 
-- 
2.43.0


From b3065d96c068cf1d994ee3d84977a38a0c744bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:33 +0000
Subject: [PATCH 38/51] fix: scan_result does not move from an lvalue

---
 include/lexy/dsl/scan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/dsl/scan.hpp b/include/lexy/dsl/scan.hpp
index 652342c..34ac574 100644
--- a/include/lexy/dsl/scan.hpp
+++ b/include/lexy/dsl/scan.hpp
@@ -52,7 +52,7 @@ public:
     template <typename U = T, typename = std::enable_if_t<std::is_constructible_v<T, U>>>
     constexpr scan_result(U&& value)
     {
-        _value.emplace(LEXY_MOV(value));
+        _value.emplace(LEXY_FWD(value));
     }
 
     constexpr explicit operator bool() const noexcept
-- 
2.43.0


From 8fd64de811436dea8b27699d6429747514a4db1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:33 +0000
Subject: [PATCH 39/51] fix: rule_scanner::recursion_depth() compiles

---
 include/lexy/dsl/scan.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/lexy/dsl/scan.hpp b/include/lexy/dsl/scan.hpp
index 34ac574..1a97788 100644
--- a/include/lexy/dsl/scan.hpp
+++ b/include/lexy/dsl/scan.hpp
@@ -429,8 +429,7 @@ public:
 
     constexpr std::size_t recursion_depth() const noexcept
     {
-        auto& cb = _context->control_block();
-        return static_cast<std::size_t>(cb.cur_depth);
+        return static_cast<std::size_t>(_context->control_block->cur_depth);
     }
 
     constexpr auto begin() const noexcept -> typename Reader::iterator
-- 
2.43.0


From 7d8e7b171d4476559d405b455967ae81c756c49e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:33 +0000
Subject: [PATCH 40/51] fix: the control production of a scanner may have a
 rule, as documented

---
 include/lexy/action/scan.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/lexy/action/scan.hpp b/include/lexy/action/scan.hpp
index 0f1b4e9..6dd7f7a 100644
--- a/include/lexy/action/scan.hpp
+++ b/include/lexy/action/scan.hpp
@@ -25,7 +25,12 @@ struct _scp<void>
 };
 template <typename ControlProduction>
 struct _scp : ControlProduction, _scp<void>
-{};
+{
+    // Ignore the ones of the control production.
+    using _scp<void>::name;
+    using _scp<void>::rule;
+    using _scp<void>::value;
+};
 
 template <typename ControlProduction, typename Input, typename State, typename ErrorCallback>
 class scanner : public _detail::scanner<scanner<ControlProduction, Input, State, ErrorCallback>,
-- 
2.43.0


From 5a6911a5317ea0e8217e8cdcff334e28236bd423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:33 +0000
Subject: [PATCH 41/51] fix: a scanner can parse a rule that produces values
 without a result

---
 include/lexy/dsl/parse_as.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/lexy/dsl/parse_as.hpp b/include/lexy/dsl/parse_as.hpp
index 393c456..43fc68f 100644
--- a/include/lexy/dsl/parse_as.hpp
+++ b/include/lexy/dsl/parse_as.hpp
@@ -46,6 +46,14 @@ struct _pas_final_parser
         value.emplace_result(lexy::construct<T>, LEXY_FWD(args)...);
         return true;
     }
+    template <typename Context, typename Reader, typename... Args>
+    LEXY_PARSER_FUNC static bool parse(Context&, Reader&, lexy::_detail::lazy_init<void>& value,
+                                       Args&&...)
+    {
+        // No value is requested, so everything produced is discarded.
+        value.emplace();
+        return true;
+    }
 };
 
 template <typename Handler>
-- 
2.43.0


From 50e5940a459434d1b4dd55b2f4a13663d4cff3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:43 +0000
Subject: [PATCH 42/51] fix: lexy::callback(sink) does not return a dangling
 reference

---
 include/lexy/callback/adapter.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lexy/callback/adapter.hpp b/include/lexy/callback/adapter.hpp
index 803b6db..a8dca71 100644
--- a/include/lexy/callback/adapter.hpp
+++ b/include/lexy/callback/adapter.hpp
@@ -83,9 +83,11 @@ struct _cb_from_sink
     using _cb         = lexy::sink_callback<Sink>;
     using return_type = typename _cb::return_type;
 
+    // The sink might return a reference to itself in finish(), which must not escape.
     template <typename... Args>
-    constexpr auto operator()(Args&&... args) const -> decltype((LEXY_DECLVAL(_cb&)(LEXY_FWD(args)),
-                                                                 ..., LEXY_DECLVAL(_cb&&).finish()))
+    constexpr auto operator()(Args&&... args) const
+        -> std::decay_t<decltype((LEXY_DECLVAL(_cb&)(LEXY_FWD(args)), ...,
+                                  LEXY_DECLVAL(_cb&&).finish()))>
     {
         auto cb = _sink.sink();
         (cb(LEXY_FWD(args)), ...);
-- 
2.43.0


From 86567a254b9255032fa005a1413283027e87e5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:31 +0000
Subject: [PATCH 43/51] fix: an action whose scanner failed without raising an
 error does not report success

---
 include/lexy/action/validate.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/action/validate.hpp b/include/lexy/action/validate.hpp
index ed1a7a3..8f94e12 100644
--- a/include/lexy/action/validate.hpp
+++ b/include/lexy/action/validate.hpp
@@ -96,7 +96,8 @@ private:
     constexpr explicit validate_result(bool did_recover, error_type&& error)
     : _error(LEXY_MOV(error)), _status()
     {
-        if (error_count() == 0u)
+        // A scanner can fail without raising an error.
+        if (did_recover && error_count() == 0u)
             _status = _status_success;
         else if (did_recover)
             _status = _status_recovered;
-- 
2.43.0


From 46f7a1cc5d99dc05e4ef2c3068fc3a89be2fda63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:14 +0000
Subject: [PATCH 44/51] fix: a color escape with several codes keeps all of
 them for every output iterator

---
 include/lexy/visualize.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/visualize.hpp b/include/lexy/visualize.hpp
index f553087..f334821 100644
--- a/include/lexy/visualize.hpp
+++ b/include/lexy/visualize.hpp
@@ -155,7 +155,7 @@ constexpr OutIt write_color(OutIt out, visualization_options opts)
         return out;
     };
     out = write_code(out, int(CodeHead));
-    ((*out++ = ';', write_code(out, int(CodeTail))), ...);
+    ((*out++ = ';', out = write_code(out, int(CodeTail))), ...);
 
     *out++ = 'm';
     return out;
-- 
2.43.0


From d91c79b30dff7b2ca030cc11ae090b8b92d51fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:14 +0000
Subject: [PATCH 45/51] fix: visualizing a lexeme of tree nodes uses the
 visualization options

---
 include/lexy/visualize.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/visualize.hpp b/include/lexy/visualize.hpp
index f334821..dc8d50d 100644
--- a/include/lexy/visualize.hpp
+++ b/include/lexy/visualize.hpp
@@ -481,7 +481,8 @@ OutputIt visualize_to(OutputIt out, lexy::lexeme<Reader> lexeme,
         // Visualize as an iterator range of characters.
         lexy::range_input<typename encoding::char_encoding, typename Reader::iterator>
             input(lexeme.begin(), lexeme.end());
-        return visualize_to(out, lexy::lexeme_for<decltype(input)>(input.begin(), input.end()));
+        return visualize_to(out, lexy::lexeme_for<decltype(input)>(input.begin(), input.end()),
+                            opts);
     }
     else
     {
-- 
2.43.0


From c08bb1665baa3ef47878e685c19ccd4577da4a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:14 +0000
Subject: [PATCH 46/51] fix: visualizing a lexeme does not stop at a code unit
 that cannot start a code point

---
 include/lexy/visualize.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/lexy/visualize.hpp b/include/lexy/visualize.hpp
index dc8d50d..9d3b32d 100644
--- a/include/lexy/visualize.hpp
+++ b/include/lexy/visualize.hpp
@@ -373,7 +373,7 @@ OutputIt visualize_to(OutputIt out, lexy::lexeme<Reader> lexeme,
         while (true)
         {
             if (auto result = lexy::_detail::parse_code_point(reader);
-                result.error == lexy::_detail::cp_error::eof)
+                result.error == lexy::_detail::cp_error::eof && reader.position() == lexeme.end())
             {
                 // No more code points in the lexeme, finish.
                 break;
@@ -389,6 +389,9 @@ OutputIt visualize_to(OutputIt out, lexy::lexeme<Reader> lexeme,
                 // Recover from the failed code point.
                 auto begin = reader.position();
                 lexy::_detail::recover_code_point(reader, result);
+                if (reader.position() == begin)
+                    // The code unit isn't the start of any code point, skip just that one.
+                    reader.bump();
                 auto end = reader.position();
 
                 // Visualize each skipped code unit as byte.
-- 
2.43.0


From 37190429fab6a4e685fb3c0df39017b30cf94d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:21:14 +0000
Subject: [PATCH 47/51] fix: trace uses the names of the given token kind

---
 include/lexy/action/trace.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy/action/trace.hpp b/include/lexy/action/trace.hpp
index 540f72d..975bb74 100644
--- a/include/lexy/action/trace.hpp
+++ b/include/lexy/action/trace.hpp
@@ -441,7 +441,7 @@ struct trace_action
     visualization_options _opts;
     State*                _state = nullptr;
 
-    using handler = _th<OutputIt, Input>;
+    using handler = _th<OutputIt, Input, TokenKind>;
     using state   = State;
     using input   = Input;
 
-- 
2.43.0


From 0c8c086ac07abb8fe5e61505ef8c42a4de05ac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:12 +0000
Subject: [PATCH 48/51] fix: visualizing a non-ASCII byte of an ASCII lexeme
 escapes it instead of dropping it

---
 include/lexy/visualize.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lexy/visualize.hpp b/include/lexy/visualize.hpp
index 9d3b32d..805a477 100644
--- a/include/lexy/visualize.hpp
+++ b/include/lexy/visualize.hpp
@@ -399,7 +399,8 @@ OutputIt visualize_to(OutputIt out, lexy::lexeme<Reader> lexeme,
                 {
                     if constexpr (std::is_same_v<encoding,
                                                  lexy::utf8_encoding> //
-                                  || std::is_same_v<encoding, lexy::utf8_char_encoding>)
+                                  || std::is_same_v<encoding, lexy::utf8_char_encoding>
+                                  || std::is_same_v<encoding, lexy::ascii_encoding>)
                     {
                         out = write_escaped_byte(out, static_cast<unsigned char>(*cur & 0xFF));
                     }
-- 
2.43.0


From c1e165e247d2458c6970afda3c6fd9c9017916f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:41:12 +0000
Subject: [PATCH 49/51] fix: report_error works with lexeme_input

---
 include/lexy_ext/report_error.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lexy_ext/report_error.hpp b/include/lexy_ext/report_error.hpp
index b0ba90b..1e95f35 100644
--- a/include/lexy_ext/report_error.hpp
+++ b/include/lexy_ext/report_error.hpp
@@ -238,7 +238,7 @@ OutputIt write_error(OutputIt out, const lexy::error_context<Input>& context,
                      const lexy::error<Reader, Tag>& error, lexy::visualization_options opts,
                      const char* path)
 {
-    diagnostic_writer<Input> writer(context.input(), opts);
+    diagnostic_writer<std::decay_t<decltype(context.input())>> writer(context.input(), opts);
 
     // Convert the context location and error location into line/column information.
     auto context_location = lexy::get_input_location(context.input(), context.position());
-- 
2.43.0


From 98595a725da2bdffad6616f24d1eaa9f69f90a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:10 +0000
Subject: [PATCH 50/51] fix: trace shows the location of an error that begins
 before the last child production

---
 include/lexy/action/trace.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/lexy/action/trace.hpp b/include/lexy/action/trace.hpp
index 975bb74..1676b29 100644
--- a/include/lexy/action/trace.hpp
+++ b/include/lexy/action/trace.hpp
@@ -330,6 +330,7 @@ public:
 
             // All events for the production are after the initial event.
             _previous_anchor.emplace(handler._anchor);
+            _start_anchor.emplace(loc.anchor());
             handler._anchor = loc.anchor();
         }
         void on(_th& handler, parse_events::production_finish, iterator pos)
@@ -380,7 +381,9 @@ public:
         template <typename Error>
         void on(_th& handler, parse_events::error, const Error& error)
         {
-            auto loc = handler.get_location(error.position());
+            // An error can begin before the child production that was parsed last,
+            // so its location needs to be computed from the beginning of this production.
+            auto loc = get_input_location(*handler._input, error.position(), *_start_anchor);
             handler._writer.write_error(loc, error);
         }
 
@@ -411,6 +414,8 @@ public:
         // The beginning of the previous production.
         // If the current production gets canceled, it needs to be restored.
         _detail::lazy_init<input_location_anchor<Input>> _previous_anchor;
+        // The beginning of this production.
+        _detail::lazy_init<input_location_anchor<Input>> _start_anchor;
     };
 
     template <typename Production, typename State>
-- 
2.43.0


From 53185470224073b9ef115e3794590295325f722a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:52 +0000
Subject: [PATCH 51/51] fix: building a parse tree through dsl::subgrammar

The grammar events of a subgrammar are nested in those of the surrounding grammar,
so the tree is already being built.
---
 include/lexy/action/parse_as_tree.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/lexy/action/parse_as_tree.hpp b/include/lexy/action/parse_as_tree.hpp
index 5c5bd9f..cdffdf5 100644
--- a/include/lexy/action/parse_as_tree.hpp
+++ b/include/lexy/action/parse_as_tree.hpp
@@ -30,13 +30,16 @@ public:
 
         void on(_pth& handler, parse_events::grammar_start, iterator)
         {
-            LEXY_PRECONDITION(handler._depth == 0);
+            // If we're parsing a subgrammar, the tree is already being built.
+            if (handler._depth > 0)
+                return;
 
             handler._builder.emplace(LEXY_MOV(*handler._tree), _validate.get_info());
         }
         void on(_pth& handler, parse_events::grammar_finish, Reader& reader)
         {
-            LEXY_PRECONDITION(handler._depth == 0);
+            if (handler._depth > 0)
+                return;
 
             auto begin = reader.position();
             lexy::try_match_token(dsl::any, reader);
@@ -46,7 +49,8 @@ public:
         }
         void on(_pth& handler, parse_events::grammar_cancel, Reader&)
         {
-            LEXY_PRECONDITION(handler._depth == 0);
+            if (handler._depth > 0)
+                return;
 
             handler._tree->clear();
         }
-- 
2.43.0

