From b201196d16df1016e588d920a8ca45c4dc47e852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:20 +0000
Subject: [PATCH 01/46] fix: keep the line table consistent when a change ends
 behind the last line

didChange with an end position on a line that does not exist (which denotes
the end of the document) removed entries of lines that stay, or accessed the
table out of its bounds.
---
 parser_library/src/workspaces/file_impl.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index efd228d..a1111cd 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -127,8 +127,9 @@ bool file_impl::get_lsp_editing() { return editing_; }
 // applies a change to the text and updates line begginings
 void file_impl::did_change(range range, std::string new_text)
 {
-    size_t range_end_line = (size_t)range.end.line;
-    size_t range_start_line = (size_t)range.start.line;
+    // positions behind the last line denote the end of the text
+    size_t range_end_line = std::min((size_t)range.end.line, lines_ind_.size() - 1);
+    size_t range_start_line = std::min((size_t)range.start.line, lines_ind_.size() - 1);
 
     size_t begin = index_from_position(text_, lines_ind_, range.start);
     size_t end = index_from_position(text_, lines_ind_, range.end);
-- 
2.43.0


From fb2eb5c4e063edf51e6af1c2c2dfffe2fdb95fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:48:20 +0000
Subject: [PATCH 02/46] fix: clamp columns of document changes to the end of
 their line

LSP defines that a character offset greater than the line length denotes the
end of the line; the server ran into the following lines instead and replaced
text the client did not.
---
 parser_library/src/workspaces/file_impl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index a1111cd..bffb23f 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -239,7 +239,12 @@ size_t file_impl::index_from_position(const std::string& text, const std::vector
     size_t i = line_indices[loc.line];
     size_t utf16_counter = 0;
 
-    while (utf16_counter < end && i < text.size())
+    // a column behind the end of the line denotes the end of the line
+    size_t line_end = loc.line + 1 < line_indices.size() ? line_indices[loc.line + 1] : text.size();
+    while (line_end > i && (text[line_end - 1] == '\n' || text[line_end - 1] == '\r'))
+        --line_end;
+
+    while (utf16_counter < end && i < line_end)
     {
         if (!utf8_one_byte_begin(text[i]))
         {
-- 
2.43.0


From 099f9581b8fe8a1a89dd03b7fa78edfcf7c0fa7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:50:57 +0000
Subject: [PATCH 03/46] fix: update the line table when a change joins or
 splits a CRLF line end

Text changes on whose edge a carriage return meets a line feed left the line
table with a line end too many or too few, so that following changes were
applied to wrong places.
---
 parser_library/src/workspaces/file_impl.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index bffb23f..7f7a578 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -134,8 +134,22 @@ void file_impl::did_change(range range, std::string new_text)
     size_t begin = index_from_position(text_, lines_ind_, range.start);
     size_t end = index_from_position(text_, lines_ind_, range.end);
 
+    const auto crlf_at = [this](size_t i) {
+        return i > 0 && i < text_.size() && text_[i - 1] == '\r' && text_[i] == '\n';
+    };
+    bool crlf_on_edge = crlf_at(begin) || crlf_at(end);
+
     text_.replace(begin, end - begin, new_text);
 
+    crlf_on_edge |= crlf_at(begin) || crlf_at(begin + new_text.size());
+    if (crlf_on_edge)
+    {
+        // line ends on the edge of the change were joined into one or split into two
+        lines_ind_ = create_line_indices(text_);
+        ++version_;
+        return;
+    }
+
     std::vector<size_t> new_lines;
 
     find_newlines(new_text, new_lines);
-- 
2.43.0


From cd106ef351a86b64eddb585bc93aad790f955496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:15 +0000
Subject: [PATCH 04/46] fix: shifts and unary minus in conditional assembly
 arithmetic

A shift by 0 returned the shift count instead of the value, an arithmetic
right shift of a non-negative value by 32 or more returned -1, SLA let bits
slip into the sign, and negating -2147483648 overflowed unreported.
---
 .../expressions/conditional_assembly/ca_operator_binary.cpp | 6 +++---
 .../expressions/conditional_assembly/ca_operator_unary.cpp  | 5 +++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
index 55b8056..e5ae1b9 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
@@ -103,7 +103,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
 {
     auto shift_part = rhs & 0x3f; // first 6 bits
     if (shift_part == 0)
-        return rhs;
+        return lhs;
 
     std::uint32_t unsigned_lhs = lhs;
     auto sign_bit = unsigned_lhs & (1U << 31);
@@ -118,7 +118,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
                 result = sign_bit;
                 break;
             case ca_expr_ops::SRA:
-                result = ~0U;
+                result = sign_bit ? ~0U : 0U;
                 break;
             default:
                 result = 0;
@@ -130,7 +130,7 @@ context::A_t shift_operands(context::A_t lhs, context::A_t rhs, ca_expr_ops shif
     switch (shift)
     {
         case ca_expr_ops::SLA:
-            result = (unsigned_lhs << shift_part) | sign_bit;
+            result = ((unsigned_lhs << shift_part) & ~(1U << 31)) | sign_bit;
             break;
         case ca_expr_ops::SLL:
             result = unsigned_lhs << shift_part;
diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp
index 92c7a09..885e698 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_unary.cpp
@@ -16,6 +16,7 @@
 
 #include <algorithm>
 
+#include "ca_operator_binary.h"
 #include "ebcdic_encoding.h"
 #include "expressions/evaluation_context.h"
 #include "terms/ca_function.h"
@@ -112,9 +113,9 @@ ca_minus_operator::ca_minus_operator(ca_expr_ptr expr, range expr_range)
     : ca_unary_operator(std::move(expr), context::SET_t_enum::A_TYPE, std::move(expr_range))
 {}
 
-context::SET_t ca_minus_operator::operation(context::SET_t operand, const evaluation_context&) const
+context::SET_t ca_minus_operator::operation(context::SET_t operand, const evaluation_context& eval_ctx) const
 {
-    return -operand.access_a();
+    return ca_sub::operation(0, operand, expr_range, eval_ctx);
 }
 
 ca_par_operator::ca_par_operator(ca_expr_ptr expr, range expr_range)
-- 
2.43.0


From 7768ce8fcc80ffb5d407020e2d2778b7702536a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:16:15 +0000
Subject: [PATCH 05/46] fix: comparisons of integers far apart and of strings
 with NUL or non-ASCII characters

---
 parser_library/src/ebcdic_encoding.cpp                |  2 +-
 .../conditional_assembly/ca_operator_binary.cpp       | 11 ++++++-----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/parser_library/src/ebcdic_encoding.cpp b/parser_library/src/ebcdic_encoding.cpp
index 0eec00a..30d4f6c 100644
--- a/parser_library/src/ebcdic_encoding.cpp
+++ b/parser_library/src/ebcdic_encoding.cpp
@@ -85,7 +85,7 @@ std::string hlasm_plugin::parser_library::ebcdic_encoding::to_ebcdic(const std::
 {
     std::string a;
     a.reserve(s.length());
-    for (const char* i = s.c_str(); *i != 0; ++i)
+    for (const char* i = s.c_str(); i < s.c_str() + s.size(); ++i)
         a.push_back(to_ebcdic(to_pseudoascii(i)));
     return a;
 }
diff --git a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
index e5ae1b9..54ab127 100644
--- a/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
+++ b/parser_library/src/expressions/conditional_assembly/ca_operator_binary.cpp
@@ -219,12 +219,13 @@ context::SET_t ca_function_binary_operator::operation(
 
 int ca_function_binary_operator::compare_string(const context::C_t& lhs, const context::C_t& rhs)
 {
-    int diff = (int)lhs.size() - (int)rhs.size();
+    const auto l = ebcdic_encoding::to_ebcdic(lhs);
+    const auto r = ebcdic_encoding::to_ebcdic(rhs);
 
-    if (diff != 0)
-        return diff;
+    if (l.size() != r.size())
+        return l.size() < r.size() ? -1 : 1;
 
-    return ebcdic_encoding::to_ebcdic(lhs).compare(ebcdic_encoding::to_ebcdic(rhs));
+    return l.compare(r);
 }
 
 int ca_function_binary_operator::compare_relational(
@@ -233,7 +234,7 @@ int ca_function_binary_operator::compare_relational(
     switch (type)
     {
         case context::SET_t_enum::A_TYPE:
-            return lhs.access_a() - rhs.access_a();
+            return (lhs.access_a() > rhs.access_a()) - (lhs.access_a() < rhs.access_a());
         case context::SET_t_enum::C_TYPE:
             return compare_string(lhs.access_c(), rhs.access_c());
         default:
-- 
2.43.0


From 778f3ae3bba1e08d72294db3caaee2321e9dfa9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:28 +0000
Subject: [PATCH 06/46] fix: C2A of characters beyond ASCII and X2C with an
 invalid second digit

---
 .../conditional_assembly/terms/ca_function.cpp  | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp b/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
index 5502b8b..9472d79 100644
--- a/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
+++ b/parser_library/src/expressions/conditional_assembly/terms/ca_function.cpp
@@ -221,17 +221,16 @@ context::SET_t ca_function::C2A(std::string_view param, diagnostic_adder& add_di
     if (param.empty())
         return 0;
 
-    if (param.size() > 4)
+    const auto ebcdic = ebcdic_encoding::to_ebcdic(std::string(param));
+
+    if (ebcdic.size() > 4)
         RET_ERRPARM;
 
-    context::A_t ret = 0;
-    for (const char* c = param.data(); c < param.data() + param.size(); ++c)
-    {
-        ret <<= 8;
-        ret += ebcdic_encoding::to_ebcdic(ebcdic_encoding::to_pseudoascii(c));
-    }
+    std::uint32_t ret = 0;
+    for (unsigned char c : ebcdic)
+        ret = (ret << 8) + c;
 
-    return ret;
+    return (context::A_t)ret;
 }
 
 context::SET_t ca_function::D2A(std::string_view param, diagnostic_adder& add_diagnostic)
@@ -667,7 +666,7 @@ context::SET_t ca_function::X2C(const context::C_t& param, diagnostic_adder& add
     for (auto c = new_string.c_str(); c != new_string.c_str() + new_string.size(); c += 2)
     {
         unsigned char value = 0;
-        if (std::isxdigit(*c))
+        if (std::isxdigit((unsigned char)*c) && std::isxdigit((unsigned char)*(c + 1)))
             std::from_chars(c, c + 2, value, 16);
         else
             RET_ERRPARM;
-- 
2.43.0


From e0e786a019340364b13761acb976f0847e7ed2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:51 +0000
Subject: [PATCH 07/46] fix: UTF-16 columns of tokens next to characters
 outside the BMP

---
 parser_library/src/lexing/lexer.cpp | 21 ++++-----------------
 parser_library/src/lexing/lexer.h   |  1 -
 2 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index c9ff8c5..ad062c5 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -187,8 +187,7 @@ void lexer::create_token(size_t ttype, size_t channel = Channels::DEFAULT_CHANNE
         token_start_state_.char_position_in_line_utf16,
         input_state_->char_position_in_line_utf16));
 
-    auto stop_position_in_line = last_char_utf16_long_ ? input_state_->char_position_in_line_utf16 - 1
-                                                       : input_state_->char_position_in_line_utf16;
+    auto stop_position_in_line = input_state_->char_position_in_line_utf16;
 
     if (src_proc_)
         switch (ttype)
@@ -230,26 +229,14 @@ void lexer::consume()
 
     if (input_state_->c != static_cast<char_t>(-1))
     {
+        // the width of the character that is left behind
+        input_state_->char_position_in_line_utf16 += input_state_->c > 0xFFFF ? 2 : 1;
+
         input_state_->input->consume();
         input_state_->char_position++;
         input_state_->c = static_cast<char_t>(input_state_->input->LA(1));
 
         input_state_->char_position_in_line++;
-        if (input_state_->c == static_cast<char32_t>(-1))
-        {
-            last_char_utf16_long_ = false;
-            input_state_->char_position_in_line_utf16 += 1;
-        }
-        else if (input_state_->c > 0xFFFF)
-        {
-            last_char_utf16_long_ = true;
-            input_state_->char_position_in_line_utf16 += 2;
-        }
-        else
-        {
-            last_char_utf16_long_ = false;
-            input_state_->char_position_in_line_utf16++;
-        }
     }
 }
 
diff --git a/parser_library/src/lexing/lexer.h b/parser_library/src/lexing/lexer.h
index 75952f9..f9bfa6c 100644
--- a/parser_library/src/lexing/lexer.h
+++ b/parser_library/src/lexing/lexer.h
@@ -140,7 +140,6 @@ protected:
 
 private:
     bool eof_generated_ = false;
-    bool last_char_utf16_long_ = false;
     bool creating_var_symbol_ = false;
     bool creating_attr_ref_ = false;
     // insert string to the ainsert stream; to the front=True or to the end (front=False)
-- 
2.43.0


From 8f352d752a687c438ffa179a17d3411ac302da29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:19 +0000
Subject: [PATCH 08/46] fix: character classification of characters beyond
 Latin-1 in the lexer

---
 parser_library/src/lexing/lexer.cpp | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index ad062c5..0550a48 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -35,6 +35,12 @@ thread_local std::wstring_convert<std::codecvt_utf8<char32_t>, char32_t> convert
 thread_local std::wstring_convert<std::codecvt_utf8<int32_t>, int32_t> converter;
 #endif
 
+namespace {
+// the functions of cctype are defined for the values of unsigned char only
+bool is_white_space(size_t c) { return c <= 255 && isspace(static_cast<int>(c)); }
+size_t to_upper(size_t c) { return c <= 255 ? toupper(static_cast<int>(c)) : c; }
+} // namespace
+
 lexer::lexer(input_source* input, semantics::source_info_processor* lsp_proc, performance_metrics* metrics)
     : input_(input)
     , src_proc_(lsp_proc)
@@ -302,7 +308,7 @@ token_ptr lexer::nextToken()
         else if (double_byte_enabled_)
             check_continuation();
 
-        else if (!unlimited_line_ && input_state_->char_position_in_line == end_ && !isspace(input_state_->c)
+        else if (!unlimited_line_ && input_state_->char_position_in_line == end_ && !is_white_space(input_state_->c)
             && continuation_enabled_ && (!from_buffer() || !ainsert_buffer_.empty()))
             lex_continuation();
 
@@ -507,7 +513,7 @@ void lexer::lex_comment()
             consume();
         create_token(COMMENT, HIDDEN_CHANNEL);
 
-        if (!isspace(input_state_->c) && !eof() && continuation_enabled_)
+        if (!is_white_space(input_state_->c) && !eof() && continuation_enabled_)
             lex_continuation();
         else
         {
@@ -561,7 +567,7 @@ void lexer::check_continuation()
         return;
 
     auto cc = input_->LA(end_default_ + 1);
-    if (cc != CharStream::EOF && !isspace(static_cast<int>(cc)))
+    if (cc != CharStream::EOF && !is_white_space(cc))
     {
         do
         {
@@ -597,7 +603,7 @@ bool lexer::is_space() const { return input_state_->c == ' ' || input_state_->c
 
 bool lexer::is_data_attribute() const
 {
-    auto tmp = std::toupper(input_state_->c);
+    auto tmp = to_upper(input_state_->c);
     return tmp == 'D' || tmp == 'O' || tmp == 'N' || tmp == 'S' || tmp == 'K' || tmp == 'I' || tmp == 'L' || tmp == 'T';
 }
 
@@ -683,13 +689,13 @@ void lexer::set_continuation_enabled(bool enabled) { continuation_enabled_ = ena
 bool lexer::is_process() const
 {
     return ((ictl_ && input_state_->line <= 11) || (!ictl_ && input_state_->line <= 10))
-        && toupper(static_cast<int>(input_state_->input->LA(2))) == 'P'
-        && toupper(static_cast<int>(input_state_->input->LA(3))) == 'R'
-        && toupper(static_cast<int>(input_state_->input->LA(4))) == 'O'
-        && toupper(static_cast<int>(input_state_->input->LA(5))) == 'C'
-        && toupper(static_cast<int>(input_state_->input->LA(6))) == 'E'
-        && toupper(static_cast<int>(input_state_->input->LA(7))) == 'S'
-        && toupper(static_cast<int>(input_state_->input->LA(8))) == 'S';
+        && to_upper(static_cast<size_t>(input_state_->input->LA(2))) == 'P'
+        && to_upper(static_cast<size_t>(input_state_->input->LA(3))) == 'R'
+        && to_upper(static_cast<size_t>(input_state_->input->LA(4))) == 'O'
+        && to_upper(static_cast<size_t>(input_state_->input->LA(5))) == 'C'
+        && to_upper(static_cast<size_t>(input_state_->input->LA(6))) == 'E'
+        && to_upper(static_cast<size_t>(input_state_->input->LA(7))) == 'S'
+        && to_upper(static_cast<size_t>(input_state_->input->LA(8))) == 'S';
 }
 
 void lexer::set_ictl() { ictl_ = true; }
-- 
2.43.0


From cdcbcb83b7304fcef1d5d7513d87be676ead9b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:53:54 +0000
Subject: [PATCH 09/46] fix: replace overlong, surrogate and too large UTF-8
 sequences in files

---
 parser_library/src/workspaces/file_impl.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index 7f7a578..54558a2 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -327,6 +327,15 @@ std::string file_impl::replace_non_utf8_chars(const std::string& text)
             }
         }
 
+        // overlong forms, surrogates and values above U+10FFFF are not characters
+        if (OK && ch_len > 1)
+        {
+            const auto first = (unsigned char)text[i];
+            const auto second = (unsigned char)text[i + 1];
+            OK = first >= 0xC2 && first <= 0xF4 && !(first == 0xE0 && second < 0xA0) && !(first == 0xED && second > 0x9F)
+                && !(first == 0xF0 && second < 0x90) && !(first == 0xF4 && second > 0x8F);
+        }
+
         if (OK)
         {
             // copy the character to output
-- 
2.43.0


From 90e5c1eb20db88e667a6ce9d303e73126f983f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:24 +0000
Subject: [PATCH 10/46] fix: wait for the running request of a server when
 finishing it, even if no other is queued

---
 language_server/src/request_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/language_server/src/request_manager.cpp b/language_server/src/request_manager.cpp
index 3378790..cc35b67 100644
--- a/language_server/src/request_manager.cpp
+++ b/language_server/src/request_manager.cpp
@@ -114,7 +114,7 @@ void request_manager::finish_server_requests(server* to_finish)
 {
     std::lock_guard guard(q_mtx_);
 
-    if (requests_.empty())
+    if (requests_.empty() && currently_running_server_ != to_finish)
         return;
 
     if (cancel_)
-- 
2.43.0


From 8f088e193764e2c634881a0649c54cf78aad4a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:04 +0000
Subject: [PATCH 11/46] fix: accept malformed messages and a missing
 cancellation token in the request queue

---
 language_server/src/request_manager.cpp | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/language_server/src/request_manager.cpp b/language_server/src/request_manager.cpp
index cc35b67..32185cf 100644
--- a/language_server/src/request_manager.cpp
+++ b/language_server/src/request_manager.cpp
@@ -45,7 +45,8 @@ void request_manager::add_request(server* server, json message)
         // if the new file is the same as the currently running one, cancel the old one
         if (currently_running_file_ == file && currently_running_file_ != "" && is_parsing_required)
         {
-            *cancel_ = true;
+            if (cancel_)
+                *cancel_ = true;
             // mark redundant requests as non valid
             for (auto& req : requests_)
             {
@@ -146,9 +147,9 @@ std::string request_manager::get_request_file_(json r, bool* is_parsing_required
     constexpr const char* didChange = "textDocument/didChange";
 
     auto found = r.find("method");
-    if (found == r.end())
+    if (found == r.end() || !found->is_string())
         return "";
-    auto method = r["method"].get<std::string>();
+    auto method = found->get<std::string>();
     if (method.substr(0, 12) == "textDocument")
     {
         if (is_parsing_required)
@@ -158,7 +159,17 @@ std::string request_manager::get_request_file_(json r, bool* is_parsing_required
             else
                 *is_parsing_required = false;
         }
-        return r["params"]["textDocument"]["uri"].get<std::string>();
+        // the message may be malformed, leave that to the server
+        auto params = r.find("params");
+        if (params == r.end())
+            return "";
+        auto document = params->find("textDocument");
+        if (document == params->end())
+            return "";
+        auto uri = document->find("uri");
+        if (uri == document->end() || !uri->is_string())
+            return "";
+        return uri->get<std::string>();
     }
     return std::string();
-}
\ No newline at end of file
+}
-- 
2.43.0


From 6bf39c87b4619c5324da18130e720e6dd8453b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:30 +0000
Subject: [PATCH 12/46] fix: signs in differences of relocatable values,
 division of the smallest integer by -1 in machine expressions

---
 parser_library/src/context/ordinary_assembly/address.cpp | 2 +-
 parser_library/src/context/ordinary_assembly/symbol.cpp  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/address.cpp b/parser_library/src/context/ordinary_assembly/address.cpp
index 12f60c5..ca6fa37 100644
--- a/parser_library/src/context/ordinary_assembly/address.cpp
+++ b/parser_library/src/context/ordinary_assembly/address.cpp
@@ -241,7 +241,7 @@ std::vector<T> merge_entries(const std::vector<T>& lhs, const std::vector<T>& rh
             if (operation == op::ADD)
                 count = (*it)->second + entry.second;
             else
-                count = (*it)->second - entry.second;
+                count = entry.second - (*it)->second;
 
             if (count != 0)
                 res.emplace_back(entry.first, count);
diff --git a/parser_library/src/context/ordinary_assembly/symbol.cpp b/parser_library/src/context/ordinary_assembly/symbol.cpp
index 79bc33f..59bf887 100644
--- a/parser_library/src/context/ordinary_assembly/symbol.cpp
+++ b/parser_library/src/context/ordinary_assembly/symbol.cpp
@@ -72,7 +72,7 @@ symbol_value symbol_value::operator-(const symbol_value& value) const
         if (value.value_kind() == symbol_value_kind::ABS)
             return get_abs() - value.get_abs();
         else
-            return value.get_reloc() - get_abs();
+            return -value.get_reloc() + get_abs();
     }
     else if (value_kind() == symbol_value_kind::RELOC)
     {
@@ -105,7 +105,7 @@ symbol_value symbol_value::operator*(const symbol_value& value) const
 symbol_value symbol_value::operator/(const symbol_value& value) const
 {
     if (value_kind() == symbol_value_kind::ABS && value.value_kind() == symbol_value_kind::ABS)
-        return value.get_abs() == 0 ? 0 : get_abs() / value.get_abs();
+        return value.get_abs() == 0 ? 0 : (abs_value_t)((long long)get_abs() / value.get_abs());
 
     return symbol_value();
 }
-- 
2.43.0


From 876215abad58d67fbd5f1bca86441c0f4774f850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 13/46] fix: place a location counter behind the highest
 location of the previous one

---
 .../context/ordinary_assembly/location_counter.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/location_counter.cpp b/parser_library/src/context/ordinary_assembly/location_counter.cpp
index 792a08f..c919687 100644
--- a/parser_library/src/context/ordinary_assembly/location_counter.cpp
+++ b/parser_library/src/context/ordinary_assembly/location_counter.cpp
@@ -22,9 +22,19 @@
 
 using namespace hlasm_plugin::parser_library::context;
 
-bool location_counter::has_unresolved_spaces() const { return !!org_data_.back().fist_space(); }
+bool location_counter::has_unresolved_spaces() const
+{
+    return std::any_of(org_data_.begin(), org_data_.end(), [](const auto& data) { return !!data.fist_space(); });
+}
 
-size_t location_counter::storage() const { return curr_data().storage; }
+size_t location_counter::storage() const
+{
+    // the highest value reached, ORG may have set the current one lower
+    size_t max = 0;
+    for (const auto& data : org_data_)
+        max = std::max(max, (size_t)data.storage);
+    return max;
+}
 
 location_counter::location_counter(id_index name, const section& owner, const loctr_kind kind, id_storage& ids)
     : switched_(nullptr)
-- 
2.43.0


From 67c6b47a5f642d104ee093f895591abbb6440507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:06 +0000
Subject: [PATCH 14/46] fix: keep the offset of symbols equated to addresses
 that are not resolved yet

---
 .../src/processing/instruction_sets/asm_processor.cpp        | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 60714b0..8daf3bf 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -152,7 +152,7 @@ void asm_processor::process_EQU(rebuilt_statement stmt)
             }
             else
             {
-                if (!holder.is_address())
+                if (!holder.is_address() || !holder.undefined_attr_refs.empty() || !holder.unresolved_spaces.empty())
                 {
                     bool cycle_ok = create_symbol(stmt.stmt_range_ref(), symbol_name, context::symbol_value(), attrs);
 
@@ -166,7 +166,8 @@ void asm_processor::process_EQU(rebuilt_statement stmt)
                     }
                 }
                 else
-                    create_symbol(stmt.stmt_range_ref(), symbol_name, *holder.unresolved_address, attrs);
+                    create_symbol(
+                        stmt.stmt_range_ref(), symbol_name, expr_op->expression->resolve(hlasm_ctx.ord_ctx), attrs);
             }
         }
     }
-- 
2.43.0


From 4168c67958d4c6cdcd6301cc1362b23ec0e7494d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:48 +0000
Subject: [PATCH 15/46] fix: report ORG operands that turn out not to be
 relocatable instead of failing

---
 .../ordinary_assembly/symbol_dependency_tables.cpp   |  3 ++-
 .../processing/instruction_sets/asm_processor.cpp    | 12 +++++++++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
index 2de05fc..568a364 100644
--- a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
+++ b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
@@ -95,7 +95,8 @@ struct resolve_dependant_visitor
 
         if (sp->kind == space_kind::LOCTR_UNKNOWN)
             resolver->resolve_unknown_loctr_dependency(sp,
-                val.get_reloc(),
+                // a value that is not relocatable lies in no section
+                val.value_kind() == symbol_value_kind::RELOC ? val.get_reloc() : address(address::base {}, 0, {}),
                 dependency_source_stmts_.find(sp)->second.stmt_ref->get()->impl()->stmt_range_ref());
         else
             space::resolve(sp, length);
diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 8daf3bf..718129e 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -430,9 +430,15 @@ void asm_processor::process_ORG(rebuilt_statement stmt)
 
     if (reloc_expr)
     {
-        auto reloc_val = !undefined_absolute_part
-            ? reloc_expr->expression->evaluate(hlasm_ctx.ord_ctx).get_reloc()
-            : *reloc_expr->expression->get_dependencies(hlasm_ctx.ord_ctx).unresolved_address;
+        auto val = undefined_absolute_part
+            ? context::symbol_value(*reloc_expr->expression->get_dependencies(hlasm_ctx.ord_ctx).unresolved_address)
+            : reloc_expr->expression->evaluate(hlasm_ctx.ord_ctx);
+        if (val.value_kind() != context::symbol_value_kind::RELOC)
+        {
+            add_diagnostic(diagnostic_op::error_A245_ORG_expression(stmt.stmt_range_ref()));
+            return;
+        }
+        auto reloc_val = val.get_reloc();
 
         if (!check_address_for_ORG(
                 stmt.stmt_range_ref(), reloc_val, hlasm_ctx.ord_ctx.align(context::no_align), boundary, offset))
-- 
2.43.0


From 75e4e3ded92ed977df778bdc1f31e2a12072191a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:07 +0000
Subject: [PATCH 16/46] fix: align ORG to the next available location in
 location counters that do not start the section

---
 .../ordinary_assembly_context.cpp                  | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
index db9ee7e..f459598 100644
--- a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
+++ b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
@@ -177,14 +177,12 @@ void ordinary_assembly_context::set_available_location_counter_value(size_t boun
     auto [sp, addr] = curr_section_->current_location_counter().set_available_value();
 
     if (sp)
-        symbol_dependencies.add_dependency(
-            sp, std::make_unique<aggregate_address_resolver>(std::move(addr), boundary, offset));
-    else
-    {
-        if (boundary)
-            (void)align(alignment { 0, boundary });
-        (void)reserve_storage_area(offset, context::no_align);
-    }
+        symbol_dependencies.add_dependency(sp, std::make_unique<aggregate_address_resolver>(std::move(addr), 0, 0));
+
+    // the highest value may be relative to the beginning of the location counter, so it is aligned separately
+    if (boundary)
+        (void)align(alignment { 0, boundary });
+    (void)reserve_storage_area(offset, context::no_align);
 }
 
 bool ordinary_assembly_context::symbol_defined(id_index name) { return symbols_.find(name) != symbols_.end(); }
-- 
2.43.0


From 29a973fa45b613b7090788248cac51ced42585c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:07 +0000
Subject: [PATCH 17/46] fix: report cyclic definitions closed by a label
 instead of looping or ignoring them

---
 .../ordinary_assembly_context.cpp             |  4 ++
 .../symbol_dependency_tables.cpp              | 47 +++++++++++++++++++
 .../symbol_dependency_tables.h                |  3 ++
 3 files changed, 54 insertions(+)

diff --git a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
index f459598..d96ab86 100644
--- a/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
+++ b/parser_library/src/context/ordinary_assembly/ordinary_assembly_context.cpp
@@ -47,7 +47,11 @@ bool ordinary_assembly_context::create_symbol(
     bool ok = true;
 
     if (value.value_kind() == symbol_value_kind::RELOC)
+    {
         ok = symbol_dependencies.check_loctr_cycle();
+        // the location may depend on a symbol that has been waiting for this one
+        ok &= symbol_dependencies.check_cycle(value.get_reloc());
+    }
 
     if (value.value_kind() != symbol_value_kind::UNDEF)
         symbol_dependencies.add_defined();
diff --git a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
index 568a364..71b25c3 100644
--- a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
+++ b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.cpp
@@ -35,11 +35,15 @@ bool symbol_dependency_tables::check_cycle(dependant target, std::vector<dependa
         return false;
     }
 
+    std::unordered_set<dependant> visited;
     while (!dependencies.empty())
     {
         auto top_dep = std::move(dependencies.back());
         dependencies.pop_back();
 
+        if (!visited.insert(top_dep).second)
+            continue;
+
         const resolvable* dep_src = nullptr;
 
         if (auto it = dependencies_.find(top_dep); it != dependencies_.end())
@@ -328,6 +332,49 @@ bool symbol_dependency_tables::check_cycle(space_ptr target)
     return no_cycle;
 }
 
+bool symbol_dependency_tables::check_cycle(const address& addr)
+{
+    std::vector<dependant> stack, cycled;
+    std::unordered_map<dependant, bool> finished; // false when on the current path
+
+    for (const auto& [sp, count] : addr.normalized_spaces())
+        stack.emplace_back(sp);
+
+    while (!stack.empty())
+    {
+        auto [it, first_visit] = finished.try_emplace(stack.back(), false);
+        if (!first_visit)
+        {
+            it->second = true;
+            stack.pop_back();
+            continue;
+        }
+
+        auto dep_src = dependencies_.find(stack.back());
+        if (dep_src == dependencies_.end())
+            continue;
+
+        for (auto&& dep : extract_dependencies(dep_src->second))
+        {
+            auto state = finished.find(dep);
+            if (state == finished.end())
+                stack.push_back(std::move(dep));
+            else if (!state->second)
+                cycled.push_back(std::move(dep));
+        }
+    }
+
+    for (const auto& target : cycled)
+    {
+        if (dependencies_.erase(target) == 0)
+            continue;
+        resolve_dependant_default(target);
+        try_erase_source_statement(target);
+    }
+
+    return cycled.empty();
+}
+
 void symbol_dependency_tables::add_dependency(post_stmt_ptr target)
 {
     dependency_adder adder(*this, std::move(target));
diff --git a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.h b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.h
index 66e1f7a..9f712d2 100644
--- a/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.h
+++ b/parser_library/src/context/ordinary_assembly/symbol_dependency_tables.h
@@ -104,6 +104,9 @@ public:
     // checks for cycle in location counter value
     bool check_loctr_cycle();
 
+    // checks for cycle in the unresolved parts of an address
+    bool check_cycle(const address& addr);
+
     // collect all postponed statements either if they still contain dependent objects
     std::vector<post_stmt_ptr> collect_postponed();
 
-- 
2.43.0


From 7b824f64453abc22dda52248510730344bfcf118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:06 +0000
Subject: [PATCH 18/46] fix: check the length of address constants that have no
 nominal value

---
 .../data_def_types_address.cpp                | 22 ++++++++++++-------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/parser_library/src/checking/data_definition/data_def_types_address.cpp b/parser_library/src/checking/data_definition/data_def_types_address.cpp
index 95b59e5..f341300 100644
--- a/parser_library/src/checking/data_definition/data_def_types_address.cpp
+++ b/parser_library/src/checking/data_definition/data_def_types_address.cpp
@@ -47,13 +47,16 @@ bool check_A_AD_Y_length(const std::string& type,
     if (!op.length.present)
         return true;
 
-    for (auto e : std::get<nominal_value_expressions>(op.nominal_value.value))
+    if (op.nominal_value.present)
     {
-        const data_def_expr& expr = std::get<data_def_expr>(e);
-        if (!expr.ignored && expr.ex_kind != expr_type::ABS)
+        for (const auto& e : std::get<nominal_value_expressions>(op.nominal_value.value))
         {
-            all_absolute = false;
-            break;
+            const data_def_expr& expr = std::get<data_def_expr>(e);
+            if (!expr.ignored && expr.ex_kind != expr_type::ABS)
+            {
+                all_absolute = false;
+                break;
+            }
         }
     }
     // For absolute expressions, it is possible to specify bit or byte length modifier with bounds specified in
@@ -94,7 +97,8 @@ bool check_A_AD_Y_length(const std::string& type,
 bool data_def_type_A::check(
     const data_definition_operand& op, const diagnostic_collector& add_diagnostic, bool check_nominal) const
 {
-    if (!check_nominal)
+    // the length is checked even when there is no nominal value
+    if (!check_nominal && op.nominal_value.present)
         return true;
     return check_A_AD_Y_length("A", op, add_diagnostic, 1, 8, 2, 4, 1, 128);
 }
@@ -106,7 +110,8 @@ data_def_type_AD::data_def_type_AD()
 bool data_def_type_AD::check(
     const data_definition_operand& op, const diagnostic_collector& add_diagnostic, bool check_nominal) const
 {
-    if (!check_nominal)
+    // the length is checked even when there is no nominal value
+    if (!check_nominal && op.nominal_value.present)
         return true;
     return check_A_AD_Y_length("AD", op, add_diagnostic, 1, 8, 2, 8, 1, 128);
 }
@@ -118,7 +123,8 @@ data_def_type_Y::data_def_type_Y()
 bool data_def_type_Y::check(
     const data_definition_operand& op, const diagnostic_collector& add_diagnostic, bool check_nominal) const
 {
-    if (!check_nominal)
+    // the length is checked even when there is no nominal value
+    if (!check_nominal && op.nominal_value.present)
         return true;
     return check_A_AD_Y_length("Y", op, add_diagnostic, 1, 2, 2, 2, 1, 16);
 }
-- 
2.43.0


From bd31b7681196196ba6028ed34f9b887278847def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:06 +0000
Subject: [PATCH 19/46] fix: do not truncate the scale modifier before its
 range is checked

---
 parser_library/src/checking/data_definition/data_def_fields.h  | 2 +-
 .../src/checking/data_definition/data_def_type_base.cpp        | 2 +-
 parser_library/src/expressions/data_definition.cpp             | 3 +--
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/parser_library/src/checking/data_definition/data_def_fields.h b/parser_library/src/checking/data_definition/data_def_fields.h
index c69587e..8e3eb76 100644
--- a/parser_library/src/checking/data_definition/data_def_fields.h
+++ b/parser_library/src/checking/data_definition/data_def_fields.h
@@ -94,7 +94,7 @@ struct data_def_address
 using expr_or_address = std::variant<data_def_expr, data_def_address>;
 using nominal_value_expressions = std::vector<expr_or_address>;
 using nominal_value_t = data_def_field<std::variant<std::string, nominal_value_expressions>>;
-using scale_modifier_t = data_def_field<int16_t>;
+using scale_modifier_t = data_def_field<int32_t>;
 using exponent_modifier_t = data_def_field<int32_t>;
 using dupl_factor_modifier_t = data_def_field<int32_t>;
 
diff --git a/parser_library/src/checking/data_definition/data_def_type_base.cpp b/parser_library/src/checking/data_definition/data_def_type_base.cpp
index 4155a89..d58a619 100644
--- a/parser_library/src/checking/data_definition/data_def_type_base.cpp
+++ b/parser_library/src/checking/data_definition/data_def_type_base.cpp
@@ -397,7 +397,7 @@ uint32_t data_def_type::get_length_attribute(const data_def_length_t& length, co
 int16_t data_def_type::get_scale_attribute(const scale_modifier_t& scale, const nominal_value_t& nominal) const
 {
     if (scale.present)
-        return scale.value;
+        return (int16_t)scale.value;
     else
         return get_implicit_scale(nominal);
 }
diff --git a/parser_library/src/expressions/data_definition.cpp b/parser_library/src/expressions/data_definition.cpp
index e36a4c2..f7e2fc5 100644
--- a/parser_library/src/expressions/data_definition.cpp
+++ b/parser_library/src/expressions/data_definition.cpp
@@ -288,8 +288,7 @@ checking::data_def_length_t data_definition::evaluate_length(expressions::mach_e
 
 checking::scale_modifier_t data_definition::evaluate_scale(expressions::mach_evaluate_info info) const
 {
-    auto common = set_data_def_field(scale.get(), info);
-    return checking::scale_modifier_t(common.present, (int16_t)common.value, common.rng);
+    return set_data_def_field(scale.get(), info);
 }
 
 checking::exponent_modifier_t data_definition::evaluate_exponent(expressions::mach_evaluate_info info) const
-- 
2.43.0


From 514576a4eb0937c9f8ab60c022d8b46f12dbe5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:06 +0000
Subject: [PATCH 20/46] fix: E is a type extension of type C only, elsewhere it
 is the exponent modifier

---
 parser_library/src/expressions/data_definition.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/expressions/data_definition.cpp b/parser_library/src/expressions/data_definition.cpp
index f7e2fc5..2262128 100644
--- a/parser_library/src/expressions/data_definition.cpp
+++ b/parser_library/src/expressions/data_definition.cpp
@@ -596,7 +596,8 @@ data_definition data_definition::parser::parse()
     if (p_ >= format_.size())
         return std::move(result_);
 
-    if (is_type_extension(format_[p_]))
+    // E is a type extension of type C only, it is the exponent modifier with all other types
+    if (is_type_extension(format_[p_]) && (format_[p_] != 'E' || result_.type == 'C'))
     {
         result_.extension = format_[p_];
         result_.extension_range = { pos_, { pos_.line, pos_.column + 1 } };
-- 
2.43.0


From 2a7b7e82e2b276c77bd5c5eeb895a3928f62b9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:06 +0000
Subject: [PATCH 21/46] fix: scale and integer attributes of data definitions
 without scale modifier

---
 .../src/processing/instruction_sets/asm_processor.cpp         | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 718129e..490ba52 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -228,8 +228,8 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
             {
                 len = value.get_length_attribute();
             }
-            if (data_op->value->scale
-                && !data_op->value->scale->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
+            if (!data_op->value->scale
+                || !data_op->value->scale->get_dependencies(hlasm_ctx.ord_ctx).contains_dependencies())
             {
                 scale = value.get_scale_attribute();
             }
-- 
2.43.0


From d8f8918bcb9003b4b8cdd95cbbf890358156e478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:06 +0000
Subject: [PATCH 22/46] fix: lengths of constants with blanks and of characters
 of several bytes

---
 .../data_definition/data_def_types_string.cpp | 28 +++++++++++++------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/parser_library/src/checking/data_definition/data_def_types_string.cpp b/parser_library/src/checking/data_definition/data_def_types_string.cpp
index 315b45c..e58db36 100644
--- a/parser_library/src/checking/data_definition/data_def_types_string.cpp
+++ b/parser_library/src/checking/data_definition/data_def_types_string.cpp
@@ -43,11 +43,7 @@ uint64_t get_X_B_length(const std::string& s, uint64_t frac)
 
 uint32_t get_X_B_length_attr(const std::string& s, uint64_t frac)
 {
-    size_t first_value_len = s.find(',');
-    if (first_value_len == std::string::npos)
-        first_value_len = s.size();
-    first_value_len = (first_value_len + frac - 1) / frac;
-    return (uint32_t)first_value_len;
+    return (uint32_t)get_X_B_length(s.substr(0, s.find(',')), frac);
 }
 
 // Checks comma separated values. is_valid_digit specifies whether the char is valid character of value.
@@ -125,6 +121,20 @@ uint32_t data_def_type_B::get_nominal_length_attribute(const nominal_value_t& no
 }
 
 //******************************   type C   ********************************//
+
+// Returns number of characters of a UTF-8 string (a character may be encoded by several bytes).
+uint64_t get_character_count(const std::string& s)
+{
+    return std::count_if(s.begin(), s.end(), [](char c) { return ((unsigned char)c & 0xC0) != 0x80; });
+}
+
+// Returns number of UTF-16 code units that represent the UTF-8 string.
+uint64_t get_utf16_unit_count(const std::string& s)
+{
+    return get_character_count(s)
+        + std::count_if(s.begin(), s.end(), [](char c) { return ((unsigned char)c & 0xF8) == 0xF0; });
+}
+
 data_def_type_CA_CE::data_def_type_CA_CE(char extension)
     : data_def_type('C',
         extension,
@@ -143,7 +153,7 @@ uint64_t data_def_type_CA_CE::get_nominal_length(const nominal_value_t& op) cons
     if (!op.present)
         return 1;
     else
-        return std::get<std::string>(op.value).size();
+        return get_character_count(std::get<std::string>(op.value));
 }
 
 uint32_t data_def_type_CA_CE::get_nominal_length_attribute(const nominal_value_t& nom) const
@@ -155,7 +165,7 @@ uint32_t data_def_type_CA_CE::get_nominal_length_attribute(const nominal_value_t
         if (!std::holds_alternative<std::string>(nom.value))
             return 0;
         else
-            return (uint32_t)std::get<std::string>(nom.value).size();
+            return (uint32_t)get_character_count(std::get<std::string>(nom.value));
     }
 }
 
@@ -181,7 +191,7 @@ uint64_t data_def_type_CU::get_nominal_length(const nominal_value_t& op) const
     if (!op.present)
         return 2;
     else
-        return 2 * (uint64_t)std::get<std::string>(op.value).size();
+        return 2 * get_utf16_unit_count(std::get<std::string>(op.value));
 }
 
 uint32_t data_def_type_CU::get_nominal_length_attribute(const nominal_value_t& nom) const
@@ -193,7 +203,7 @@ uint32_t data_def_type_CU::get_nominal_length_attribute(const nominal_value_t& n
         if (!std::holds_alternative<std::string>(nom.value))
             return 0;
         else
-            return 2 * (uint32_t)std::get<std::string>(nom.value).size();
+            return 2 * (uint32_t)get_utf16_unit_count(std::get<std::string>(nom.value));
     }
 }
 
-- 
2.43.0


From 487ad2e5d15e9e3cfa158a69c67093b144e18ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:24 +0000
Subject: [PATCH 23/46] fix: check the index or length of address operands
 written as D(X)

---
 parser_library/src/checking/instr_operand.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/checking/instr_operand.cpp b/parser_library/src/checking/instr_operand.cpp
index 0012e4e..dff7a2a 100644
--- a/parser_library/src/checking/instr_operand.cpp
+++ b/parser_library/src/checking/instr_operand.cpp
@@ -172,14 +172,14 @@ bool address_operand::check(diagnostic_op& diag,
 
                 // length parameters can have +1 values specified
                 if (to_check.first.type == machine_operand_type::LENGTH
-                    && !is_length_corresponding(first_op, to_check.first.size))
+                    && !is_length_corresponding(actual_val, to_check.first.size))
                 {
                     diag = get_first_parameter_error(
                         to_check.first.type, instr_name, 0, 1ll << to_check.first.size, stmt_range);
                     return false;
                 }
                 if (to_check.first.type != machine_operand_type::LENGTH
-                    && !is_operand_corresponding(first_op, to_check.first))
+                    && !is_operand_corresponding(actual_val, to_check.first))
                 {
                     assert(!to_check.first.is_signed);
                     diag = get_first_parameter_error(
-- 
2.43.0


From 766cfb45cd0a95744bc520d6d41e556540e872f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:30 +0000
Subject: [PATCH 24/46] fix: EXRL, LHRL and LGHRL accept relocatable operands

---
 parser_library/src/context/instruction.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/context/instruction.cpp b/parser_library/src/context/instruction.cpp
index 2280b1d..27a2677 100644
--- a/parser_library/src/context/instruction.cpp
+++ b/parser_library/src/context/instruction.cpp
@@ -540,7 +540,7 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "EX", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 740);
     add_machine_instr(result, "XIHF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 740);
     add_machine_instr(result, "XILF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 740);
-    add_machine_instr(result, "EXRL", mach_format::RIL_b, { reg_4_U, imm_32_S }, 740);
+    add_machine_instr(result, "EXRL", mach_format::RIL_b, { reg_4_U, reg_imm_32_S }, 740);
     add_machine_instr(result, "EAR", mach_format::RRE, { reg_4_U, reg_4_U }, 741);
     add_machine_instr(result, "ECAG", mach_format::RSY_a, { reg_4_U, reg_4_U, db_20_4_S }, 741);
     add_machine_instr(result, "ECTG", mach_format::SSF, { db_12_4_U, db_12_4_U, reg_4_U }, 744);
@@ -616,8 +616,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "LGH", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 760);
     add_machine_instr(result, "LHI", mach_format::RI_a, { reg_4_U, imm_16_S }, 760);
     add_machine_instr(result, "LGHI", mach_format::RI_a, { reg_4_U, imm_16_S }, 760);
-    add_machine_instr(result, "LHRL", mach_format::RIL_b, { reg_4_U, imm_32_S }, 760);
-    add_machine_instr(result, "LGHRL", mach_format::RIL_b, { reg_4_U, imm_32_S }, 760);
+    add_machine_instr(result, "LHRL", mach_format::RIL_b, { reg_4_U, reg_imm_32_S }, 760);
+    add_machine_instr(result, "LGHRL", mach_format::RIL_b, { reg_4_U, reg_imm_32_S }, 760);
     add_machine_instr(result, "LHH", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 761);
     add_machine_instr(result, "LOCHI", mach_format::RIE_g, { reg_4_U, imm_16_S, mask_4_U }, 761);
     add_machine_instr(result, "LOCGHI", mach_format::RIE_g, { reg_4_U, imm_16_S, mask_4_U }, 761);
-- 
2.43.0


From 0cbcabc89dda3d0f3390e3e1136845478782b7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:57 +0000
Subject: [PATCH 25/46] fix: operand formats of BASSM, CLFIT, CLGIB, CLGIJ,
 CLGIT, CLGT, CLIB, CLIJ, CLIY, CLT, MC, MVIY, STFLE, STNSM, STOSM, XC, XI,
 XIY and RxSBG

---
 parser_library/src/context/instruction.cpp | 64 +++++++++++-----------
 1 file changed, 32 insertions(+), 32 deletions(-)

diff --git a/parser_library/src/context/instruction.cpp b/parser_library/src/context/instruction.cpp
index 27a2677..6ff3342 100644
--- a/parser_library/src/context/instruction.cpp
+++ b/parser_library/src/context/instruction.cpp
@@ -315,7 +315,7 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "BAL", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 519);
     add_machine_instr(result, "BASR", mach_format::RR, { reg_4_U, reg_4_U }, 520);
     add_machine_instr(result, "BAS", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 520);
-    add_machine_instr(result, "BASSM", mach_format::RX_a, { reg_4_U, reg_4_U }, 520);
+    add_machine_instr(result, "BASSM", mach_format::RR, { reg_4_U, reg_4_U }, 520);
     add_machine_instr(result, "BSM", mach_format::RR, { reg_4_U, reg_4_U }, 522);
     add_machine_instr(result, "BIC", mach_format::RXY_b, { mask_4_U, dxb_20_4x4_S }, 523);
     add_machine_instr(result, "BCR", mach_format::RR, { mask_4_U, reg_4_U }, 524);
@@ -451,7 +451,7 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "CLFI", mach_format::RIL_a, { reg_4_U, imm_32_S }, 636);
     add_machine_instr(result, "CLGFI", mach_format::RIL_a, { reg_4_U, imm_32_S }, 636);
     add_machine_instr(result, "CLI", mach_format::SI, { db_12_4_U, imm_8_U }, 636);
-    add_machine_instr(result, "CLIY", mach_format::SIY, { db_12_4_U, imm_8_U }, 636);
+    add_machine_instr(result, "CLIY", mach_format::SIY, { db_20_4_S, imm_8_U }, 636);
     add_machine_instr(result, "CLFHSI", mach_format::SIL, { db_12_4_U, imm_16_U }, 636);
     add_machine_instr(result, "CLGHSI", mach_format::SIL, { db_12_4_U, imm_16_U }, 636);
     add_machine_instr(result, "CLHHSI", mach_format::SIL, { db_12_4_U, imm_16_U }, 636);
@@ -464,16 +464,16 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "CLGRB", mach_format::RRS, { reg_4_U, reg_4_U, mask_4_U, db_12_4_U }, 638);
     add_machine_instr(result, "CLRJ", mach_format::RIE_b, { reg_4_U, reg_4_U, mask_4_U, reg_imm_16_S }, 638);
     add_machine_instr(result, "CLGRJ", mach_format::RIE_b, { reg_4_U, reg_4_U, mask_4_U, reg_imm_16_S }, 638);
-    add_machine_instr(result, "CLIB", mach_format::RIS, { reg_4_U, imm_8_S, mask_4_U, db_12_4_U }, 638);
-    add_machine_instr(result, "CLGIB", mach_format::RIS, { reg_4_U, imm_8_S, mask_4_U, db_12_4_U }, 638);
-    add_machine_instr(result, "CLIJ", mach_format::RIE_c, { reg_4_U, imm_8_S, mask_4_U, reg_imm_16_S }, 638);
-    add_machine_instr(result, "CLGIJ", mach_format::RIE_c, { reg_4_U, imm_8_S, mask_4_U, reg_imm_16_S }, 638);
+    add_machine_instr(result, "CLIB", mach_format::RIS, { reg_4_U, imm_8_U, mask_4_U, db_12_4_U }, 638);
+    add_machine_instr(result, "CLGIB", mach_format::RIS, { reg_4_U, imm_8_U, mask_4_U, db_12_4_U }, 638);
+    add_machine_instr(result, "CLIJ", mach_format::RIE_c, { reg_4_U, imm_8_U, mask_4_U, reg_imm_16_S }, 638);
+    add_machine_instr(result, "CLGIJ", mach_format::RIE_c, { reg_4_U, imm_8_U, mask_4_U, reg_imm_16_S }, 638);
     add_machine_instr(result, "CLRT", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 639);
     add_machine_instr(result, "CLGRT", mach_format::RRF_c, { reg_4_U, reg_4_U, mask_4_U }, 639);
-    add_machine_instr(result, "CLT", mach_format::RSY_b, { reg_4_U, mask_4_U, dxb_20_4x4_S }, 639);
-    add_machine_instr(result, "CLGT", mach_format::RSY_b, { reg_4_U, mask_4_U, dxb_20_4x4_S }, 639);
-    add_machine_instr(result, "CLFIT", mach_format::RIE_a, { reg_4_U, imm_16_S, mask_4_U }, 640);
-    add_machine_instr(result, "CLGIT", mach_format::RIE_a, { reg_4_U, imm_16_S, mask_4_U }, 640);
+    add_machine_instr(result, "CLT", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 639);
+    add_machine_instr(result, "CLGT", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 639);
+    add_machine_instr(result, "CLFIT", mach_format::RIE_a, { reg_4_U, imm_16_U, mask_4_U }, 640);
+    add_machine_instr(result, "CLGIT", mach_format::RIE_a, { reg_4_U, imm_16_U, mask_4_U }, 640);
     add_machine_instr(result, "CLM", mach_format::RS_b, { reg_4_U, mask_4_U, db_12_4_U }, 641);
     add_machine_instr(result, "CLMY", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 641);
     add_machine_instr(result, "CLMH", mach_format::RSY_b, { reg_4_U, mask_4_U, db_20_4_S }, 641);
@@ -534,9 +534,9 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "X", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 738);
     add_machine_instr(result, "XY", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 738);
     add_machine_instr(result, "XG", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 738);
-    add_machine_instr(result, "XI", mach_format::SI, { db_12_4_U, imm_8_S }, 739);
-    add_machine_instr(result, "XIY", mach_format::SIY, { db_20_4_S, imm_8_S }, 739);
-    add_machine_instr(result, "XC", mach_format::SS_a, { db_12_8x4L_U, db_20_4_S }, 739);
+    add_machine_instr(result, "XI", mach_format::SI, { db_12_4_U, imm_8_U }, 739);
+    add_machine_instr(result, "XIY", mach_format::SIY, { db_20_4_S, imm_8_U }, 739);
+    add_machine_instr(result, "XC", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 739);
     add_machine_instr(result, "EX", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 740);
     add_machine_instr(result, "XIHF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 740);
     add_machine_instr(result, "XILF", mach_format::RIL_a, { reg_4_U, imm_32_S }, 740);
@@ -675,14 +675,14 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "LRVH", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 771);
     add_machine_instr(result, "LRV", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 771);
     add_machine_instr(result, "LRVG", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 771);
-    add_machine_instr(result, "MC", mach_format::SI, { db_12_4_U, imm_8_S }, 772);
+    add_machine_instr(result, "MC", mach_format::SI, { db_12_4_U, imm_8_U }, 772);
     add_machine_instr(result, "MVC", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 773);
     add_machine_instr(result, "MVCRL", mach_format::SSE, { db_12_4_U, db_12_4_U }, 788);
     add_machine_instr(result, "MVHHI", mach_format::SIL, { db_12_4_U, imm_16_S }, 773);
     add_machine_instr(result, "MVHI", mach_format::SIL, { db_12_4_U, imm_16_S }, 773);
     add_machine_instr(result, "MVGHI", mach_format::SIL, { db_12_4_U, imm_16_S }, 773);
     add_machine_instr(result, "MVI", mach_format::SI, { db_12_4_U, imm_8_U }, 773);
-    add_machine_instr(result, "MVIY", mach_format::SIY, { db_12_4_U, imm_8_U }, 773);
+    add_machine_instr(result, "MVIY", mach_format::SIY, { db_20_4_S, imm_8_U }, 773);
     add_machine_instr(result, "MVCIN", mach_format::SS_a, { db_12_8x4L_U, db_12_4_U }, 774);
     add_machine_instr(result, "MVCL", mach_format::RR, { reg_4_U, reg_4_U }, 774);
     add_machine_instr(result, "MVCLE", mach_format::RS_a, { reg_4_U, reg_4_U, db_12_4_U }, 778);
@@ -759,20 +759,20 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "PFDRL", mach_format::RIL_c, { mask_4_U, reg_imm_32_S }, 843);
     add_machine_instr(result, "RLL", mach_format::RSY_a, { reg_4_U, reg_4_U, db_20_4_S }, 845);
     add_machine_instr(result, "RLLG", mach_format::RSY_a, { reg_4_U, reg_4_U, db_20_4_S }, 845);
-    add_machine_instr(result, "RNSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 845);
-    add_machine_instr(result, "RXSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 846);
-    add_machine_instr(result, "ROSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 846);
-    add_machine_instr(result, "RISBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 847);
-    add_machine_instr(result, "RISBGN", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 847);
-    add_machine_instr(result, "RISBHG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 848);
-    add_machine_instr(result, "RISBLG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 849);
-    add_machine_instr(result, "RNSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 845);
-    add_machine_instr(result, "RXSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 846);
-    add_machine_instr(result, "ROSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 858);
-    add_machine_instr(result, "RISBGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 858);
-    add_machine_instr(result, "RISBGNZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 860);
-    add_machine_instr(result, "RISBHGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 860);
-    add_machine_instr(result, "RISBLGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_S, imm_8_S, imm_8_S }, 1, 860);
+    add_machine_instr(result, "RNSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 845);
+    add_machine_instr(result, "RXSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 846);
+    add_machine_instr(result, "ROSBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 846);
+    add_machine_instr(result, "RISBG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 847);
+    add_machine_instr(result, "RISBGN", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 847);
+    add_machine_instr(result, "RISBHG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 848);
+    add_machine_instr(result, "RISBLG", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 849);
+    add_machine_instr(result, "RNSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 845);
+    add_machine_instr(result, "RXSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 846);
+    add_machine_instr(result, "ROSBGT", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 858);
+    add_machine_instr(result, "RISBGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 858);
+    add_machine_instr(result, "RISBGNZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 860);
+    add_machine_instr(result, "RISBHGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 860);
+    add_machine_instr(result, "RISBLGZ", mach_format::RIE_f, { reg_4_U, reg_4_U, imm_8_U, imm_8_U, imm_8_U }, 1, 860);
     add_machine_instr(result, "SRST", mach_format::RRE, { reg_4_U, reg_4_U }, 850);
     add_machine_instr(result, "SRSTU", mach_format::RRE, { reg_4_U, reg_4_U }, 852);
     add_machine_instr(result, "SAR", mach_format::RRE, { reg_4_U, reg_4_U }, 854);
@@ -812,7 +812,7 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "STCK", mach_format::S, { db_12_4_U }, 863);
     add_machine_instr(result, "STCKF", mach_format::S, { db_12_4_U }, 863);
     add_machine_instr(result, "STCKE", mach_format::S, { db_12_4_U }, 864);
-    add_machine_instr(result, "STFLE", mach_format::S, { db_20_4_S }, 866);
+    add_machine_instr(result, "STFLE", mach_format::S, { db_12_4_U }, 866);
     add_machine_instr(result, "STGSC", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 867);
     add_machine_instr(result, "STH", mach_format::RX_a, { reg_4_U, dxb_12_4x4_U }, 867);
     add_machine_instr(result, "STHY", mach_format::RXY_a, { reg_4_U, dxb_20_4x4_S }, 868);
@@ -1015,8 +1015,8 @@ hlasm_plugin::parser_library::context::instruction::get_machine_instructions()
     add_machine_instr(result, "STPX", mach_format::S, { db_12_4_U }, 1121);
     add_machine_instr(result, "STRAG", mach_format::SSE, { db_12_4_U, db_12_4_U }, 1121);
     add_machine_instr(result, "STSI", mach_format::S, { db_12_4_U }, 1122);
-    add_machine_instr(result, "STOSM", mach_format::SI, { db_12_4_U, imm_8_S }, 1146);
-    add_machine_instr(result, "STNSM", mach_format::SI, { db_12_4_U, imm_8_S }, 1146);
+    add_machine_instr(result, "STOSM", mach_format::SI, { db_12_4_U, imm_8_U }, 1146);
+    add_machine_instr(result, "STNSM", mach_format::SI, { db_12_4_U, imm_8_U }, 1146);
     add_machine_instr(result, "STURA", mach_format::RRE, { reg_4_U, reg_4_U }, 1147);
     add_machine_instr(result, "STURG", mach_format::RRE, { reg_4_U, reg_4_U }, 1147);
     add_machine_instr(result, "TAR", mach_format::RRE, { reg_4_U, reg_4_U }, 1147);
-- 
2.43.0


From 4887b1cb5f93d0ea8197a2021797688f76a00e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:22 +0000
Subject: [PATCH 26/46] fix: operands of extended mnemonics of instructions
 with optional operands, substituted operands of WFC, WFK and VISTR mnemonics

---
 parser_library/src/context/instruction.cpp    | 24 +++++++++----------
 .../low_language_processor.cpp                | 15 +++++++++---
 2 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/parser_library/src/context/instruction.cpp b/parser_library/src/context/instruction.cpp
index 6ff3342..6b8762a 100644
--- a/parser_library/src/context/instruction.cpp
+++ b/parser_library/src/context/instruction.cpp
@@ -2324,12 +2324,12 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "VFENEZBS", { &i.at("VFENE"), { { 3, 0 }, { 4, 3 } } });
     add_mnemonic_code(result, "VFENEZHS", { &i.at("VFENE"), { { 3, 1 }, { 4, 3 } } });
     add_mnemonic_code(result, "VFENEZFS", { &i.at("VFENE"), { { 3, 2 }, { 4, 3 } } });
-    add_mnemonic_code(result, "VISTRB", { &i.at("VISTR"), { { 3, 0 } } });
-    add_mnemonic_code(result, "VISTRH", { &i.at("VISTR"), { { 3, 1 } } });
-    add_mnemonic_code(result, "VISTRF", { &i.at("VISTR"), { { 3, 2 } } });
-    add_mnemonic_code(result, "VISTRBS", { &i.at("VISTR"), { { 3, 0 }, { 4, 1 } } });
-    add_mnemonic_code(result, "VISTRHS", { &i.at("VISTR"), { { 3, 1 }, { 4, 1 } } });
-    add_mnemonic_code(result, "VISTRFS", { &i.at("VISTR"), { { 3, 2 }, { 4, 1 } } });
+    add_mnemonic_code(result, "VISTRB", { &i.at("VISTR"), { { 2, 0 } } });
+    add_mnemonic_code(result, "VISTRH", { &i.at("VISTR"), { { 2, 1 } } });
+    add_mnemonic_code(result, "VISTRF", { &i.at("VISTR"), { { 2, 2 } } });
+    add_mnemonic_code(result, "VISTRBS", { &i.at("VISTR"), { { 2, 0 }, { 3, 1 } } });
+    add_mnemonic_code(result, "VISTRHS", { &i.at("VISTR"), { { 2, 1 }, { 3, 1 } } });
+    add_mnemonic_code(result, "VISTRFS", { &i.at("VISTR"), { { 2, 2 }, { 3, 1 } } });
     add_mnemonic_code(result, "VSTRCB", { &i.at("VSTRC"), { { 4, 0 } } });
     add_mnemonic_code(result, "VSTRCH", { &i.at("VSTRC"), { { 4, 1 } } });
     add_mnemonic_code(result, "VSTRCF", { &i.at("VSTRC"), { { 4, 2 } } });
@@ -2342,12 +2342,12 @@ std::map<std::string, mnemonic_code> hlasm_plugin::parser_library::context::inst
     add_mnemonic_code(result, "WFASB", { &i.at("VFA"), { { 3, 2 }, { 4, 8 } } });
     add_mnemonic_code(result, "WFADB", { &i.at("VFA"), { { 3, 3 }, { 4, 8 } } });
     add_mnemonic_code(result, "WFAXB", { &i.at("VFA"), { { 3, 4 }, { 4, 8 } } });
-    add_mnemonic_code(result, "WFCSB", { &i.at("WFC"), { { 3, 2 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFCDB", { &i.at("WFC"), { { 3, 3 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFCXB", { &i.at("WFC"), { { 3, 4 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFKSB", { &i.at("WFK"), { { 3, 2 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFKDB", { &i.at("WFK"), { { 3, 3 }, { 4, 0 } } });
-    add_mnemonic_code(result, "WFKXB", { &i.at("WFK"), { { 3, 4 }, { 4, 0 } } });
+    add_mnemonic_code(result, "WFCSB", { &i.at("WFC"), { { 2, 2 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFCDB", { &i.at("WFC"), { { 2, 3 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFCXB", { &i.at("WFC"), { { 2, 4 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFKSB", { &i.at("WFK"), { { 2, 2 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFKDB", { &i.at("WFK"), { { 2, 3 }, { 3, 0 } } });
+    add_mnemonic_code(result, "WFKXB", { &i.at("WFK"), { { 2, 4 }, { 3, 0 } } });
     add_mnemonic_code(result, "VFCESB", { &i.at("VFCE"), { { 3, 2 }, { 4, 0 }, { 5, 0 } } });
     add_mnemonic_code(result, "VFCESBS", { &i.at("VFCE"), { { 3, 2 }, { 4, 0 }, { 5, 1 } } });
     add_mnemonic_code(result, "VFCEDB", { &i.at("VFCE"), { { 3, 3 }, { 4, 0 }, { 5, 0 } } });
diff --git a/parser_library/src/processing/instruction_sets/low_language_processor.cpp b/parser_library/src/processing/instruction_sets/low_language_processor.cpp
index fb01e4f..6cd3c11 100644
--- a/parser_library/src/processing/instruction_sets/low_language_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/low_language_processor.cpp
@@ -204,12 +204,18 @@ low_language_processor::transform_result low_language_processor::transform_mnemo
 
     // check whether substituted mnemonic values are ok
 
+    // optional operands that are not substituted by the mnemonic
+    auto optional = curr_instr->no_optional;
+    for (const auto& [place, _] : mnemonic.replaced)
+        if (place + curr_instr->no_optional >= curr_instr->operands.size())
+            --optional;
+
     // check size of mnemonic operands
     int diff = (int)curr_instr->operands.size() - (int)operands.size() - (int)mnemonic.replaced.size();
-    if (std::abs(diff) > curr_instr->no_optional)
+    if (diff < 0 || diff > optional)
     {
         auto curr_diag = diagnostic_op::error_optional_number_of_operands(instr_name,
-            curr_instr->no_optional,
+            optional,
             (int)curr_instr->operands.size() - (int)mnemonic.replaced.size(),
             stmt.stmt_range_ref());
 
@@ -223,7 +229,7 @@ low_language_processor::transform_result low_language_processor::transform_mnemo
 
     std::vector<checking::check_op_ptr> operand_vector;
     // create vector of empty operands
-    for (size_t i = 0; i < curr_instr->operands.size() + curr_instr->no_optional; i++)
+    for (size_t i = 0; i < curr_instr->operands.size(); i++)
         operand_vector.push_back(nullptr);
     // add substituted
     for (size_t i = 0; i < mnemonic.replaced.size(); i++)
@@ -251,6 +257,9 @@ low_language_processor::transform_result low_language_processor::transform_mnemo
             }
         }
     }
+    // optional operands that were omitted
+    while (!operand_vector.empty() && operand_vector.back() == nullptr)
+        operand_vector.pop_back();
     return operand_vector;
 }
 
-- 
2.43.0


From 6d6e0bb657d96592ffa82ddc80082f16afba84b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:25 +0000
Subject: [PATCH 27/46] fix: sublists with trailing omitted elements or quoted
 parentheses in substituted macro operands

---
 .../instruction_sets/macro_processor.cpp      | 127 ++++--------------
 1 file changed, 25 insertions(+), 102 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/macro_processor.cpp b/parser_library/src/processing/instruction_sets/macro_processor.cpp
index 9825778..ac0d791 100644
--- a/parser_library/src/processing/instruction_sets/macro_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/macro_processor.cpp
@@ -41,57 +41,27 @@ bool is_data_def(char c)
     return c == 'L' || c == 'I' || c == 'S' || c == 'T' || c == 'D' || c == 'O' || c == 'N' || c == 'K';
 }
 
-std::unique_ptr<context::macro_param_data_single> find_single_macro_param(const std::string& data, size_t& start)
+// finds the comma or parenthesis that ends the operand starting at pos (or the end of data)
+// returns npos when the operand is not balanced
+size_t find_operand_end(const std::string& data, size_t pos)
 {
-    size_t begin = start;
-
-    while (true)
+    size_t nest = 0;
+    for (; pos < data.size(); ++pos)
     {
-        start = data.find_first_of(",'()", start);
-
-        if (start == std::string::npos)
-            return nullptr;
-
-        if (data[start] == '(')
+        if (data[pos] == '(')
+            ++nest;
+        else if (nest == 0 && (data[pos] == ')' || data[pos] == ','))
+            return pos;
+        else if (data[pos] == ')')
+            --nest;
+        else if (data[pos] == '\'' && (pos == 0 || !is_data_def(data[pos - 1])))
         {
-            size_t nest = 1;
-            while (nest != 0)
-            {
-                ++start;
-                if (start == data.size())
-                    return nullptr;
-
-                if (data[start] == '(')
-                    ++nest;
-                if (data[start] == ')')
-                    --nest;
-            }
-            ++start;
+            pos = data.find('\'', pos + 1);
+            if (pos == std::string::npos)
+                return pos;
         }
-        else if (data[start] == '\'')
-        {
-            if (start > 0 && is_data_def(data[start - 1]))
-            {
-                ++start;
-                continue;
-            }
-
-            start = data.find_first_of('\'', start + 1);
-
-            if (start == std::string::npos)
-                return nullptr;
-
-            ++start;
-        }
-        else
-            break;
     }
-
-    auto tmp_start = start;
-    if (data[start] == ',')
-        ++start;
-
-    return std::make_unique<context::macro_param_data_single>(data.substr(begin, tmp_start - begin));
+    return nest == 0 ? pos : std::string::npos;
 }
 
 context::macro_data_ptr macro_processor::string_to_macrodata(std::string data)
@@ -102,70 +72,23 @@ context::macro_data_ptr macro_processor::string_to_macrodata(std::string data)
     if (data.front() != '(' || data.back() != ')')
         return std::make_unique<context::macro_param_data_single>(std::move(data));
 
+    std::vector<context::macro_data_ptr> sublist;
 
-    std::stack<size_t> nests;
-    std::stack<std::vector<context::macro_data_ptr>> macro_data;
-
-    nests.push(0);
-    macro_data.emplace();
-
-    while (true)
+    for (size_t begin = 1; data != "()";)
     {
-        auto begin = nests.top();
+        auto end = find_operand_end(data, begin);
 
-        if (begin == data.size())
+        if (end >= data.size() || (data[end] == ')' && end + 1 != data.size()))
             return std::make_unique<context::macro_param_data_single>(std::move(data));
 
-        if (data[begin] == '(')
-        {
-            nests.push(begin + 1);
-            macro_data.emplace();
-        }
-        else if (data[begin] == ')')
-        {
-            ++begin;
-            nests.pop();
-
-            auto vec = std::move(macro_data.top());
-            macro_data.pop();
-
-            if (begin != data.size() && data[begin] != ',' && data[begin] != ')')
-            {
-                auto tmp_single = find_single_macro_param(data, begin);
-
-                if (tmp_single == nullptr)
-                    return std::make_unique<context::macro_param_data_single>(std::move(data));
-
-                auto single = context::macro_param_data_composite(std::move(vec)).get_value() + tmp_single->get_value();
+        sublist.push_back(string_to_macrodata(data.substr(begin, end - begin)));
 
-                macro_data.top().emplace_back(std::make_unique<context::macro_param_data_single>(std::move(single)));
-            }
-            else
-                macro_data.top().emplace_back(std::make_unique<context::macro_param_data_composite>(std::move(vec)));
-
-            nests.top() = begin + (begin != data.size() && data[begin] == ',' ? 1 : 0);
-
-            if (nests.size() == 1)
-            {
-                break;
-            }
-        }
-        else
-        {
-            macro_data.top().push_back(find_single_macro_param(data, begin));
-            nests.top() = begin;
-
-            if (macro_data.top().back() == nullptr)
-                return std::make_unique<context::macro_param_data_single>(std::move(data));
-        }
+        if (data[end] == ')')
+            break;
+        begin = end + 1;
     }
 
-    if (nests.top() != data.size())
-        return std::make_unique<context::macro_param_data_single>(std::move(data));
-
-    assert(macro_data.size() == 1 && macro_data.top().size() == 1);
-
-    return std::move(macro_data.top().front());
+    return std::make_unique<context::macro_param_data_composite>(std::move(sublist));
 }
 
 macro_arguments macro_processor::get_args(const resolved_statement& statement) const
-- 
2.43.0


From 03f43870edb6cef53c25cb3db19c25203c468938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:25 +0000
Subject: [PATCH 28/46] fix: count attribute, substrings and substituted
 integers: count characters instead of bytes, magnitude of the smallest
 integer

---
 parser_library/src/context/common_types.cpp      | 16 ++++++++++++++++
 parser_library/src/context/common_types.h        |  5 +++++
 .../src/context/variables/macro_param.cpp        |  2 +-
 .../src/context/variables/set_symbol.h           |  2 +-
 .../src/context/variables/system_variable.cpp    |  4 ++--
 .../conditional_assembly/terms/ca_string.cpp     |  8 ++++----
 .../src/semantics/concatenation_term.cpp         |  2 +-
 7 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/parser_library/src/context/common_types.cpp b/parser_library/src/context/common_types.cpp
index bd6a27b..a4d0494 100644
--- a/parser_library/src/context/common_types.cpp
+++ b/parser_library/src/context/common_types.cpp
@@ -14,6 +14,7 @@
 
 #include "common_types.h"
 
+#include <algorithm>
 #include <cctype>
 
 namespace hlasm_plugin::parser_library::context {
@@ -32,6 +33,21 @@ std::string to_upper_copy(std::string s)
     return s;
 }
 
+static bool is_character_start(char c) { return (static_cast<unsigned char>(c) & 0xC0) != 0x80; }
+
+size_t character_count(const C_t& value) { return std::count_if(value.begin(), value.end(), is_character_start); }
+
+C_t character_substring(const C_t& value, size_t start, size_t count)
+{
+    const auto skip = [&value](auto it, size_t characters) {
+        while (it != value.end() && characters-- != 0)
+            it = std::find_if(std::next(it), value.end(), is_character_start);
+        return it;
+    };
+    const auto begin = skip(value.begin(), start);
+    return C_t(begin, skip(begin, count));
+}
+
 SET_t::SET_t(context::A_t value)
     : a_value(value)
     , b_value(value)
diff --git a/parser_library/src/context/common_types.h b/parser_library/src/context/common_types.h
index a392456..c4e3d64 100644
--- a/parser_library/src/context/common_types.h
+++ b/parser_library/src/context/common_types.h
@@ -118,6 +118,11 @@ public:
 };
 
 // just mock method for now, will be implemented later with respect to UTF/EBCDIC
+// number of characters of a value (a character may be encoded by several bytes)
+size_t character_count(const C_t& value);
+// at most count characters of a value beginning with the start-th one (counted from 0)
+C_t character_substring(const C_t& value, size_t start, size_t count);
+
 std::string& to_upper(std::string& s);
 std::string to_upper_copy(std::string s);
 
diff --git a/parser_library/src/context/variables/macro_param.cpp b/parser_library/src/context/variables/macro_param.cpp
index f86563f..5a44bd2 100644
--- a/parser_library/src/context/variables/macro_param.cpp
+++ b/parser_library/src/context/variables/macro_param.cpp
@@ -82,7 +82,7 @@ A_t macro_param_base::count(std::vector<size_t> offset) const
     {
         tmp = tmp->get_ith(idx - 1);
     }
-    return (A_t)tmp->get_value().size();
+    return (A_t)character_count(tmp->get_value());
 }
 
 size_t macro_param_base::size(std::vector<size_t> offset) const
diff --git a/parser_library/src/context/variables/set_symbol.h b/parser_library/src/context/variables/set_symbol.h
index 5539884..d94d9c3 100644
--- a/parser_library/src/context/variables/set_symbol.h
+++ b/parser_library/src/context/variables/set_symbol.h
@@ -163,7 +163,7 @@ template<>
 inline A_t set_symbol<C_t>::count(std::vector<size_t> offset) const
 {
     auto tmp = get_data(std::move(offset));
-    return tmp ? (A_t)tmp->size() : (A_t)0;
+    return tmp ? (A_t)character_count(*tmp) : (A_t)0;
 }
 
 } // namespace hlasm_plugin::parser_library::context
diff --git a/parser_library/src/context/variables/system_variable.cpp b/parser_library/src/context/variables/system_variable.cpp
index 4e5e517..e71f427 100644
--- a/parser_library/src/context/variables/system_variable.cpp
+++ b/parser_library/src/context/variables/system_variable.cpp
@@ -54,14 +54,14 @@ A_t system_variable::number(std::vector<size_t> offset) const
 A_t system_variable::count(std::vector<size_t> offset) const
 {
     if (offset.empty())
-        return (A_t)data_->get_ith(1)->get_value().size();
+        return (A_t)character_count(data_->get_ith(1)->get_value());
 
     const macro_param_data_component* tmp = real_data();
     for (size_t i = 0; i < offset.size(); ++i)
     {
         tmp = tmp->get_ith(offset[i] - (i == 0 ? 0 : 1));
     }
-    return (A_t)tmp->get_value().size();
+    return (A_t)character_count(tmp->get_value());
 }
 
 size_t system_variable::size(std::vector<size_t> offset) const
diff --git a/parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp b/parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp
index 705d98b..047ad30 100644
--- a/parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp
+++ b/parser_library/src/expressions/conditional_assembly/terms/ca_string.cpp
@@ -78,15 +78,15 @@ context::SET_t ca_string::evaluate(const evaluation_context& eval_ctx) const
     if (substring.start)
     {
         auto start = substring.start->evaluate(eval_ctx).access_a();
-        auto count =
-            substring.count ? substring.count->evaluate(eval_ctx).access_a() : (context::A_t)str.size() - start + 1;
+        auto length = (context::A_t)context::character_count(str);
+        auto count = substring.count ? substring.count->evaluate(eval_ctx).access_a() : length - start + 1;
 
         if (start < 0 || count < 0 || (start == 0 && count > 0))
         {
             eval_ctx.add_diagnostic(diagnostic_op::error_CE008(substring.substring_range));
             return context::object_traits<context::C_t>::default_v();
         }
-        if (start > (context::A_t)str.size())
+        if (start > length)
         {
             eval_ctx.add_diagnostic(diagnostic_op::error_CE009(substring.start->expr_range));
             return context::object_traits<context::C_t>::default_v();
@@ -96,7 +96,7 @@ context::SET_t ca_string::evaluate(const evaluation_context& eval_ctx) const
             eval_ctx.add_diagnostic(diagnostic_op::error_CW001(substring.count->expr_range));
         */
         if (count != 0)
-            str = str.substr(start - 1, count);
+            str = context::character_substring(str, start - 1, count);
         else
             str = "";
     }
diff --git a/parser_library/src/semantics/concatenation_term.cpp b/parser_library/src/semantics/concatenation_term.cpp
index 719d454..487e8a9 100644
--- a/parser_library/src/semantics/concatenation_term.cpp
+++ b/parser_library/src/semantics/concatenation_term.cpp
@@ -43,7 +43,7 @@ std::string var_sym_conc::evaluate(context::SET_t varsym_value)
     switch (varsym_value.type)
     {
         case context::SET_t_enum::A_TYPE:
-            return std::to_string(std::abs(varsym_value.access_a()));
+            return std::to_string(std::abs((int64_t)varsym_value.access_a()));
         case context::SET_t_enum::B_TYPE:
             return varsym_value.access_b() ? "1" : "0";
         case context::SET_t_enum::C_TYPE:
-- 
2.43.0


From 3900071a2592aeb86f5f92dfa9ba6672cabe101f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:48 +0000
Subject: [PATCH 29/46] fix: omitted operands of SETx leave the corresponding
 elements unchanged

---
 .../src/processing/instruction_sets/ca_processor.cpp          | 4 ++++
 parser_library/src/processing/instruction_sets/ca_processor.h | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/processing/instruction_sets/ca_processor.cpp b/parser_library/src/processing/instruction_sets/ca_processor.cpp
index b1d6296..28b5242 100644
--- a/parser_library/src/processing/instruction_sets/ca_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/ca_processor.cpp
@@ -172,7 +172,11 @@ bool ca_processor::prepare_SET_operands(
     for (auto& op : stmt.operands_ref().value)
     {
         if (op->type == semantics::operand_type::EMPTY)
+        {
+            // an omitted operand leaves its element unchanged
+            expr_values.push_back(nullptr);
             continue;
+        }
 
         has_operand = true;
 
diff --git a/parser_library/src/processing/instruction_sets/ca_processor.h b/parser_library/src/processing/instruction_sets/ca_processor.h
index bfad590..7854b24 100644
--- a/parser_library/src/processing/instruction_sets/ca_processor.h
+++ b/parser_library/src/processing/instruction_sets/ca_processor.h
@@ -118,7 +118,8 @@ inline void ca_processor::process_SET(const semantics::complete_statement& stmt)
         return;
 
     for (size_t i = 0; i < expr_values.size(); i++)
-        set_symbol->access_set_symbol<T>()->set_value(expr_values[i]->evaluate<T>(eval_ctx), index - 1 + i);
+        if (expr_values[i])
+            set_symbol->access_set_symbol<T>()->set_value(expr_values[i]->evaluate<T>(eval_ctx), index - 1 + i);
 }
 
 template<typename T, bool global>
-- 
2.43.0


From 0e5a4fff233a0523c01d23bc4eab173ecdc1b1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:15 +0000
Subject: [PATCH 30/46] fix: crashes on unfinished variable symbols in strings
 and macro operands and on COPY with a string operand

---
 parser_library/src/parsing/grammar/ca_expr_rules.g4   |  1 +
 .../src/parsing/grammar/macro_operand_rules.g4        |  5 +++++
 .../src/processing/instruction_sets/asm_processor.cpp | 11 +++++++----
 .../processing/statement_analyzers/lsp_analyzer.cpp   |  5 +++--
 4 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/parser_library/src/parsing/grammar/ca_expr_rules.g4 b/parser_library/src/parsing/grammar/ca_expr_rules.g4
index 50d81c0..248b142 100644
--- a/parser_library/src/parsing/grammar/ca_expr_rules.g4
+++ b/parser_library/src/parsing/grammar/ca_expr_rules.g4
@@ -315,6 +315,7 @@ ca_string_b returns [ca_expr_ptr ca_expr]
 	: ca_dupl_factor (apostrophe|attr) string_ch_v_c (apostrophe|attr) substring
 	{
 		auto r = provider.get_range($ca_dupl_factor.ctx->getStart(), $substring.ctx->getStop());
+		concatenation_point::clear_concat_chain($string_ch_v_c.chain);
 		$ca_expr = std::make_unique<expressions::ca_string>(std::move($string_ch_v_c.chain), std::move($ca_dupl_factor.value), std::move($substring.value), r);
 	};
 	finally
diff --git a/parser_library/src/parsing/grammar/macro_operand_rules.g4 b/parser_library/src/parsing/grammar/macro_operand_rules.g4
index 0145964..11ac3a9 100644
--- a/parser_library/src/parsing/grammar/macro_operand_rules.g4
+++ b/parser_library/src/parsing/grammar/macro_operand_rules.g4
@@ -26,7 +26,10 @@ mac_op_o returns [operand_ptr op]
 	: mac_entry?
 	{
 		if($mac_entry.ctx)
+		{
+			concatenation_point::clear_concat_chain($mac_entry.chain);
 			$op = std::make_unique<macro_operand_chain>(std::move($mac_entry.chain),provider.get_range($mac_entry.ctx));
+		}
 		else
 			$op = std::make_unique<semantics::empty_operand>(provider.original_range);
 	};
@@ -125,6 +128,8 @@ mac_entry returns [concat_chain chain]
 mac_sublist_b_c returns [concat_chain chain]
 	: mac_ch_c										{$chain = std::move($mac_ch_c.chain);}
 	| literal										{$chain.push_back(std::make_unique<char_str_conc>($literal.ctx->getText(), provider.get_range($literal.ctx)));};
+	finally
+	{concatenation_point::clear_concat_chain($chain);}
 
 mac_sublist_b returns [std::vector<concat_chain> chains]
 	: mac_sublist_b_c										{$chains.push_back(std::move($mac_sublist_b_c.chain));}
diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 490ba52..0e35652 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -312,7 +312,8 @@ void asm_processor::process_COPY(rebuilt_statement stmt)
 {
     find_sequence_symbol(stmt);
 
-    if (stmt.operands_ref().value.size() == 1 && stmt.operands_ref().value.front()->access_asm()->access_expr())
+    if (stmt.operands_ref().value.size() == 1 && stmt.operands_ref().value.front()->access_asm()
+        && stmt.operands_ref().value.front()->access_asm()->access_expr())
     {
         process_copy(stmt, ctx, lib_provider, this);
     }
@@ -476,7 +477,8 @@ void asm_processor::process_OPSYN(rebuilt_statement stmt)
     context::id_index operand = context::id_storage::empty_id;
     if (stmt.operands_ref().value.size() == 1)
     {
-        auto expr_op = stmt.operands_ref().value.front()->access_asm()->access_expr();
+        auto asm_op = stmt.operands_ref().value.front()->access_asm();
+        auto expr_op = asm_op ? asm_op->access_expr() : nullptr;
         if (expr_op)
         {
             if (auto expr = dynamic_cast<const expressions::mach_expr_symbol*>(expr_op->expression.get()))
@@ -542,8 +544,9 @@ void asm_processor::process_copy(const semantics::complete_statement& stmt,
     workspaces::parse_lib_provider& lib_provider,
     diagnosable_ctx* diagnoser)
 {
-    auto& expr = stmt.operands_ref().value.front()->access_asm()->access_expr()->expression;
-    auto sym_expr = dynamic_cast<expressions::mach_expr_symbol*>(expr.get());
+    auto asm_op = stmt.operands_ref().value.front()->access_asm();
+    auto expr_op = asm_op ? asm_op->access_expr() : nullptr;
+    auto sym_expr = expr_op ? dynamic_cast<expressions::mach_expr_symbol*>(expr_op->expression.get()) : nullptr;
 
     if (!sym_expr)
     {
diff --git a/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp b/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
index 7ae4f19..2277657 100644
--- a/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
+++ b/parser_library/src/processing/statement_analyzers/lsp_analyzer.cpp
@@ -262,8 +262,9 @@ void lsp_analyzer::collect_copy_operands(const context::hlasm_statement& stateme
     if (res_stmt->opcode_ref().value == hlasm_ctx_.ids().add("COPY") && res_stmt->operands_ref().value.size() == 1
         && res_stmt->operands_ref().value.front()->access_asm())
     {
-        auto sym_expr = dynamic_cast<expressions::mach_expr_symbol*>(
-            res_stmt->operands_ref().value.front()->access_asm()->access_expr()->expression.get());
+        auto expr_op = res_stmt->operands_ref().value.front()->access_asm()->access_expr();
+        auto sym_expr =
+            expr_op ? dynamic_cast<expressions::mach_expr_symbol*>(expr_op->expression.get()) : nullptr;
 
         if (sym_expr)
             add_copy_operand(sym_expr->value, sym_expr->get_range());
-- 
2.43.0


From 2061f9f5f76f458efbaae3a5d9607d5db022e4e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:15 +0000
Subject: [PATCH 31/46] fix: highlighting of the rest of a line with characters
 outside the basic plane

---
 parser_library/src/lexing/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser_library/src/lexing/lexer.cpp b/parser_library/src/lexing/lexer.cpp
index 0550a48..4cf4bc4 100644
--- a/parser_library/src/lexing/lexer.cpp
+++ b/parser_library/src/lexing/lexer.cpp
@@ -494,7 +494,7 @@ void lexer::lex_end(bool eolln)
 
     if (!eof())
     {
-        last_line_pos_ = input_state_->char_position_in_line;
+        last_line_pos_ = input_state_->char_position_in_line_utf16;
         consume();
         if (eolln)
             create_token(EOLLN);
-- 
2.43.0


From 02ea89c859ee79a571931bff5e2097d7f55c9e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:34:21 +0000
Subject: [PATCH 32/46] fix: crashes on empty created variable symbols in
 expressions, positions of syntax errors in substituted operands

---
 parser_library/src/parsing/grammar/ca_expr_rules.g4 | 6 ++++--
 parser_library/src/parsing/parser_impl.cpp          | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/parsing/grammar/ca_expr_rules.g4 b/parser_library/src/parsing/grammar/ca_expr_rules.g4
index 248b142..8ef822f 100644
--- a/parser_library/src/parsing/grammar/ca_expr_rules.g4
+++ b/parser_library/src/parsing/grammar/ca_expr_rules.g4
@@ -77,7 +77,8 @@ term returns [ca_expr_ptr ca_expr]
 	| var_symbol
 	{
 		auto r = provider.get_range($var_symbol.ctx);
-		$ca_expr = std::make_unique<ca_var_sym>(std::move($var_symbol.vs), r);
+		if ($var_symbol.vs)
+			$ca_expr = std::make_unique<ca_var_sym>(std::move($var_symbol.vs), r);
 	}
 	| ca_string
 	{ 
@@ -238,7 +239,8 @@ data_attribute_value returns [std::variant<context::id_index, semantics::vs_ptr>
 	: literal
 	| var_symbol
 	{
-		$value = std::move($var_symbol.vs);
+		if ($var_symbol.vs)
+			$value = std::move($var_symbol.vs);
 	}
 	| id
 	{
diff --git a/parser_library/src/parsing/parser_impl.cpp b/parser_library/src/parsing/parser_impl.cpp
index 4278dd8..38c8416 100644
--- a/parser_library/src/parsing/parser_impl.cpp
+++ b/parser_library/src/parsing/parser_impl.cpp
@@ -125,7 +125,7 @@ std::pair<semantics::operands_si, semantics::remarks_si> parser_impl::parse_oper
     std::optional<std::string> sub;
     if (after_substitution)
         sub = field;
-    parser_error_listener_ctx listener(*hlasm_ctx, std::move(sub));
+    parser_error_listener_ctx listener(*hlasm_ctx, std::move(sub), field_range);
 
     h.input->reset(field);
 
-- 
2.43.0


From 9b5e712e5c224c4270dda6445dbd141c9c5a24c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:36 +0000
Subject: [PATCH 33/46] fix: plus sign in a program wildcard matches only
 itself

---
 parser_library/src/workspaces/wildcard.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser_library/src/workspaces/wildcard.cpp b/parser_library/src/workspaces/wildcard.cpp
index 1d9c232..b34b9a5 100644
--- a/parser_library/src/workspaces/wildcard.cpp
+++ b/parser_library/src/workspaces/wildcard.cpp
@@ -19,9 +19,9 @@
 namespace hlasm_plugin::parser_library::workspaces {
 namespace {
 // used for wildcard to regex conversions
-const std::regex escape("(\\(|\\[|\\{|\\\\|\\^|\\-|\\=|\\$|\\!|\\||\\]|\\}|\\)|\\.)");
+const std::regex escape("(\\(|\\[|\\{|\\\\|\\^|\\-|\\=|\\$|\\!|\\||\\]|\\}|\\)|\\.|\\+)");
 const std::regex question("\\?");
-const std::regex nongreedy("(\\*|\\+)");
+const std::regex nongreedy("(\\*)");
 const std::regex slash("\\/");
 } // namespace
 
-- 
2.43.0


From a7a0231249bd25cd6c0d01ce8c77b7b2d56c5104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:36 +0000
Subject: [PATCH 34/46] fix: positions of data definition diagnostics in
 substituted operands

---
 .../src/expressions/data_definition.cpp       | 42 +++++++++++--------
 .../src/expressions/data_definition.h         |  7 +++-
 .../src/parsing/grammar/data_def_rules.g4     |  4 +-
 3 files changed, 32 insertions(+), 21 deletions(-)

diff --git a/parser_library/src/expressions/data_definition.cpp b/parser_library/src/expressions/data_definition.cpp
index 2262128..1d4aa2b 100644
--- a/parser_library/src/expressions/data_definition.cpp
+++ b/parser_library/src/expressions/data_definition.cpp
@@ -28,9 +28,9 @@ using namespace hlasm_plugin::parser_library;
 
 
 data_definition data_definition::create(
-    semantics::collector& coll, std::string format, mach_expr_list exprs, nominal_value_ptr nominal, position begin)
+    semantics::collector& coll, std::string format, mach_expr_list exprs, nominal_value_ptr nominal, range operand_range)
 {
-    parser p(coll, std::move(format), std::move(exprs), std::move(nominal), begin);
+    parser p(coll, std::move(format), std::move(exprs), std::move(nominal), operand_range);
     return p.parse();
 }
 
@@ -368,12 +368,13 @@ checking::nominal_value_t data_definition::evaluate_nominal_value(expressions::m
 }
 
 data_definition::parser::parser(
-    semantics::collector& coll, std::string format, mach_expr_list exprs, nominal_value_ptr nominal, position begin)
+    semantics::collector& coll, std::string format, mach_expr_list exprs, nominal_value_ptr nominal, range operand_range)
     : collector_(coll)
     , format_(std::move(format))
     , exprs_(std::move(exprs))
     , nominal_(std::move(nominal))
-    , pos_(begin)
+    , pos_(operand_range.start)
+    , limit_(operand_range.end)
     , p_(0)
     , exprs_i_(0)
 {
@@ -402,14 +403,14 @@ std::optional<int> data_definition::parser::parse_number()
         size_t pos;
         parsed = std::stoi(format_.substr(p_), &pos);
         p_ += pos;
-        pos_.column += pos;
+        pos_ = advance(pos_, pos);
         collector_.add_hl_symbol(token_info(range(begin_pos, pos_), semantics::hl_scopes::number));
         return parsed;
     }
     catch (std::out_of_range&)
     {
         size_t end = get_number_end(p_); // Integer out of range
-        position new_pos = { pos_.line, pos_.column + (end - p_) };
+        position new_pos = advance(pos_, end - p_);
         result_.add_diagnostic(diagnostic_op::error_D001({ pos_, new_pos }));
         p_ = end;
         pos_ = new_pos;
@@ -418,7 +419,7 @@ std::optional<int> data_definition::parser::parse_number()
     catch (std::invalid_argument&)
     {
         size_t end = get_number_end(p_); // Expected an integer
-        position new_pos = { pos_.line, pos_.column + (end - p_) };
+        position new_pos = advance(pos_, end - p_);
         result_.add_diagnostic(diagnostic_op::error_D002({ pos_, new_pos }));
         p_ = end;
         pos_ = new_pos;
@@ -430,10 +431,17 @@ std::optional<int> data_definition::parser::parse_number()
 
 void data_definition::parser::update_position(const mach_expression& e)
 {
-    pos_ = e.get_range().end;
-    pos_.column += 1;
+    pos_ = advance(e.get_range().end, 1);
+}
+void data_definition::parser::update_position_by_one() { pos_ = advance(pos_, 1); }
+
+position data_definition::parser::advance(position pos, size_t count) const
+{
+    pos.column += count;
+    if (pos.line == limit_.line && pos.column > limit_.column)
+        pos.column = limit_.column;
+    return pos;
 }
-void data_definition::parser::update_position_by_one() { ++pos_.column; }
 
 void data_definition::parser::parse_duplication_factor()
 {
@@ -506,7 +514,7 @@ mach_expr_ptr data_definition::parser::parse_modifier_num_or_expr()
         }
         else
         {
-            result_.add_diagnostic(diagnostic_op::error_D003({ pos_, { pos_.line, pos_.column + 1 } }));
+            result_.add_diagnostic(diagnostic_op::error_D003({ pos_, advance(pos_, 1) }));
             ++p_;
             // no need to update pos_, nominal value (if present) is the last character of the format string
         }
@@ -543,11 +551,11 @@ void data_definition::parser::parse_modifier()
     position begin_pos = pos_;
     char modifier = format_[p_++];
     collector_.add_hl_symbol(token_info(
-        range { begin_pos, { begin_pos.line, begin_pos.column + 1 } }, semantics::hl_scopes::data_def_modifier));
+        range { begin_pos, advance(begin_pos, 1) }, semantics::hl_scopes::data_def_modifier));
     if (p_ >= format_.size())
     {
         // expected something after modifier character
-        result_.add_diagnostic(diagnostic_op::error_D003({ begin_pos, { begin_pos.line, begin_pos.column + 1 } }));
+        result_.add_diagnostic(diagnostic_op::error_D003({ begin_pos, advance(begin_pos, 1) }));
         return;
     }
 
@@ -561,14 +569,14 @@ void data_definition::parser::parse_modifier()
         if (modifier == 'L')
             result_.length_type = length_type::BIT;
         else
-            result_.add_diagnostic(diagnostic_op::error_D005({ begin_pos, { begin_pos.line, begin_pos.column + 1 } }));
+            result_.add_diagnostic(diagnostic_op::error_D005({ begin_pos, advance(begin_pos, 1) }));
 
         update_position_by_one();
 
         if (p_ >= format_.size())
         {
             // expected something after modifier character
-            result_.add_diagnostic(diagnostic_op::error_D003({ begin_pos, { begin_pos.line, begin_pos.column + 1 } }));
+            result_.add_diagnostic(diagnostic_op::error_D003({ begin_pos, advance(begin_pos, 1) }));
             return;
         }
     }
@@ -588,7 +596,7 @@ data_definition data_definition::parser::parse()
     parse_duplication_factor();
 
     result_.type = format_[p_++];
-    result_.type_range = { pos_, { pos_.line, pos_.column + 1 } };
+    result_.type_range = { pos_, advance(pos_, 1) };
     range unified_type_range = result_.type_range;
     update_position_by_one();
 
@@ -600,7 +608,7 @@ data_definition data_definition::parser::parse()
     if (is_type_extension(format_[p_]) && (format_[p_] != 'E' || result_.type == 'C'))
     {
         result_.extension = format_[p_];
-        result_.extension_range = { pos_, { pos_.line, pos_.column + 1 } };
+        result_.extension_range = { pos_, advance(pos_, 1) };
         unified_type_range.end = result_.extension_range.end;
         ++p_;
         update_position_by_one();
diff --git a/parser_library/src/expressions/data_definition.h b/parser_library/src/expressions/data_definition.h
index c795d1d..ad41ae8 100644
--- a/parser_library/src/expressions/data_definition.h
+++ b/parser_library/src/expressions/data_definition.h
@@ -69,7 +69,7 @@ struct data_definition : public diagnosable_op_impl, public context::dependable
         std::string format,
         mach_expr_list exprs,
         nominal_value_ptr nominal,
-        position begin);
+        range operand_range);
 
     // Returns conjunction of all dependencies of all expression in data_definition.
     context::dependency_collector get_dependencies(context::dependency_solver& solver) const override;
@@ -127,7 +127,7 @@ public:
         std::string format,
         mach_expr_list exprs,
         nominal_value_ptr nominal,
-        position begin);
+        range operand_range);
     // Parses the data definition specified as parameters of constructor.
     data_definition parse();
 
@@ -147,6 +147,8 @@ public:
     // Either returns expression that user specified as a modifier or creates expression from number that he specified
     // Either L(48+12) or L60
     mach_expr_ptr parse_modifier_num_or_expr();
+    // Returns the position moved by count characters, but not behind the end of the operand.
+    position advance(position pos, size_t count) const;
     // Moves the expression to the right modifier field in the result.
     void assign_expr_to_modifier(char modifier, mach_expr_ptr expr);
 
@@ -160,6 +162,7 @@ private:
     // Current state of parsing:
     // Current position in text
     position pos_;
+    position limit_;
     // Current position in format
     size_t p_;
     // Current position in expressions vector
diff --git a/parser_library/src/parsing/grammar/data_def_rules.g4 b/parser_library/src/parsing/grammar/data_def_rules.g4
index 2dba7ec..c7b5606 100644
--- a/parser_library/src/parsing/grammar/data_def_rules.g4
+++ b/parser_library/src/parsing/grammar/data_def_rules.g4
@@ -125,9 +125,9 @@ data_def returns [data_definition value]
 		if($nominal_value_o.e)
 			exprs.push_back(std::move($nominal_value_o.e));
 
-		auto begin_range = provider.get_range($d_e.ctx->getStart(),$d_e.ctx->getStop());
+		auto operand_range = provider.get_range($d_e.ctx->getStart(),_input->LT(-1));
 
-		$value = data_definition::create(collector, std::move(form), std::move(exprs), std::move($nominal_value_o.nominal), begin_range.start);
+		$value = data_definition::create(collector, std::move(form), std::move(exprs), std::move($nominal_value_o.nominal), operand_range);
 	};
 
 data_def_ch returns [std::string value]
-- 
2.43.0


From d1a1806c45276fd2801e566a450eedc527265e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:36 +0000
Subject: [PATCH 35/46] fix: a line with a syntax error in its outermost rule
 does not end the analysis of the program

---
 parser_library/src/parsing/error_strategy.h | 18 ++++++++++++++++++
 parser_library/src/parsing/parser_impl.cpp  |  2 +-
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/parser_library/src/parsing/error_strategy.h b/parser_library/src/parsing/error_strategy.h
index 955a75d..cfd031f 100644
--- a/parser_library/src/parsing/error_strategy.h
+++ b/parser_library/src/parsing/error_strategy.h
@@ -105,6 +105,24 @@ class error_strategy : public antlr4::DefaultErrorStrategy
         return _errorSymbols.back().get();
     }
 
+    // An error in the outermost rule skips just the erroneous line, the follow set of such rule would only contain EOF.
+    void recover(antlr4::Parser* recognizer, std::exception_ptr e) override
+    {
+        if (recognizer->getContext()->parent)
+        {
+            antlr4::DefaultErrorStrategy::recover(recognizer, e);
+            return;
+        }
+
+        antlr4::misc::IntervalSet endTokens;
+
+        endTokens.addItems(tokens::EOLLN);
+        consumeUntil(recognizer, endTokens);
+
+        if (recognizer->getTokenStream()->LA(1) == tokens::EOLLN)
+            recognizer->consume();
+    }
+
     antlr4::Token* singleTokenDeletion(antlr4::Parser*) override { return nullptr; }
 
     bool singleTokenInsertion(antlr4::Parser*) override { return false; }
diff --git a/parser_library/src/parsing/parser_impl.cpp b/parser_library/src/parsing/parser_impl.cpp
index 38c8416..85af9fd 100644
--- a/parser_library/src/parsing/parser_impl.cpp
+++ b/parser_library/src/parsing/parser_impl.cpp
@@ -528,7 +528,7 @@ void parser_impl::process_ordinary()
 void parser_impl::process_lookahead()
 {
     auto look_lab_instr = dynamic_cast<hlasmparser&>(*this).look_lab_instr();
-    if (!finished_flag)
+    if (!finished_flag && collector.has_instruction())
     {
         process_instruction();
         if (!look_lab_instr->op_text)
-- 
2.43.0


From 034e22b18ebbefe09cbcfe7a945f8f5b6f9dfd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:18:36 +0000
Subject: [PATCH 36/46] fix: last valid configuration is kept, reports follow
 the current contents of files and configuration

---
 parser_library/src/workspaces/file_impl.cpp   |  7 +-
 parser_library/src/workspaces/library.h       |  3 +-
 .../src/workspaces/library_local.cpp          |  6 +-
 parser_library/src/workspaces/library_local.h |  2 +-
 parser_library/src/workspaces/workspace.cpp   | 86 +++++++++++++------
 parser_library/src/workspaces/workspace.h     | 11 ++-
 6 files changed, 83 insertions(+), 32 deletions(-)

diff --git a/parser_library/src/workspaces/file_impl.cpp b/parser_library/src/workspaces/file_impl.cpp
index 54558a2..448646b 100644
--- a/parser_library/src/workspaces/file_impl.cpp
+++ b/parser_library/src/workspaces/file_impl.cpp
@@ -203,7 +203,12 @@ void file_impl::did_change(std::string new_text)
     ++version_;
 }
 
-void file_impl::did_close() { editing_ = false; }
+void file_impl::did_close()
+{
+    editing_ = false;
+    // the content of the disk is valid again
+    up_to_date_ = false;
+}
 
 const std::string& file_impl::get_text_ref() { return text_; }
 
diff --git a/parser_library/src/workspaces/library.h b/parser_library/src/workspaces/library.h
index e2843a7..139d22a 100644
--- a/parser_library/src/workspaces/library.h
+++ b/parser_library/src/workspaces/library.h
@@ -28,7 +28,8 @@ class library : public virtual diagnosable
 {
 public:
     virtual std::shared_ptr<processor> find_file(const std::string& file) = 0;
-    virtual void refresh() = 0;
+    // reloads the list of members, returns whether it has changed
+    virtual bool refresh() = 0;
     virtual ~library() = default;
 };
 
diff --git a/parser_library/src/workspaces/library_local.cpp b/parser_library/src/workspaces/library_local.cpp
index 223e1e1..fb7ff6b 100644
--- a/parser_library/src/workspaces/library_local.cpp
+++ b/parser_library/src/workspaces/library_local.cpp
@@ -80,10 +80,12 @@ void library_local::collect_diags() const
     // does not have any diagnosable children
 }
 
-void library_local::refresh()
+bool library_local::refresh()
 {
-    files_.clear();
+    const bool was_loaded = files_loaded_;
+    const auto old_files = std::move(files_);
     load_files();
+    return was_loaded && old_files != files_;
 }
 
 const std::string& library_local::get_lib_path() const { return lib_path_; }
diff --git a/parser_library/src/workspaces/library_local.h b/parser_library/src/workspaces/library_local.h
index 0aab11e..4f8f4fc 100644
--- a/parser_library/src/workspaces/library_local.h
+++ b/parser_library/src/workspaces/library_local.h
@@ -54,7 +54,7 @@ public:
 
     std::shared_ptr<processor> find_file(const std::string& file) override;
 
-    void refresh() override;
+    bool refresh() override;
 
     bool is_once_only() const override { return false; }
 
diff --git a/parser_library/src/workspaces/workspace.cpp b/parser_library/src/workspaces/workspace.cpp
index 1afd391..0eb692a 100644
--- a/parser_library/src/workspaces/workspace.cpp
+++ b/parser_library/src/workspaces/workspace.cpp
@@ -148,28 +148,37 @@ const processor_group& workspace::get_proc_grp_by_program(const std::string& fil
 
 const ws_uri& workspace::uri() { return uri_; }
 
-void workspace::parse_file(const std::string& file_uri)
+bool workspace::is_config_file_(const std::string& file_uri) const
 {
     std::filesystem::path file_path(file_uri);
+    return utils::path::equal(file_path, proc_grps_path_) || utils::path::equal(file_path, pgm_conf_path_);
+}
+
+std::vector<processor_file_ptr> workspace::find_programs_()
+{
+    auto names = dependants_;
+    for (const auto& fname : opened_files_)
+    {
+        if (!is_config_file_(fname) && !is_dependency_(fname))
+            names.insert(fname);
+    }
+
+    std::vector<processor_file_ptr> programs;
+    for (const auto& fname : names)
+    {
+        if (auto f = file_manager_.find_processor_file(fname))
+            programs.push_back(std::move(f));
+    }
+    return programs;
+}
+
+void workspace::parse_file(const std::string& file_uri)
+{
     // add support for hlasm to vscode (auto detection??) and do the decision based on languageid
-    if (utils::path::equal(file_path, proc_grps_path_) || utils::path::equal(file_path, pgm_conf_path_))
+    if (is_config_file_(file_uri))
     {
         if (load_and_process_config())
-        {
-            for (auto fname : dependants_)
-            {
-                auto found = file_manager_.find_processor_file(fname);
-                if (found)
-                    found->parse(*this);
-            }
-
-            for (auto fname : dependants_)
-            {
-                auto found = file_manager_.find_processor_file(fname);
-                if (found)
-                    filter_and_close_dependencies_(found->files_to_close(), found);
-            }
-        }
+            parse_programs_(find_programs_());
         return;
     }
     // what about removing files??? what if depentands_ points to not existing file?
@@ -197,8 +206,17 @@ void workspace::parse_file(const std::string& file_uri)
             files_to_parse.push_back(f);
     }
 
+    parse_programs_(files_to_parse);
+}
+
+void workspace::parse_programs_(const std::vector<processor_file_ptr>& files_to_parse)
+{
     for (auto f : files_to_parse)
     {
+        // a file that turned out to be used by another one is processed along with it
+        if (dependants_.find(f->get_file_name()) == dependants_.end() && is_dependency_(f->get_file_name()))
+            continue;
+
         f->parse(*this);
         if (!f->dependencies().empty())
             dependants_.insert(f->get_file_name());
@@ -221,27 +239,35 @@ void workspace::parse_file(const std::string& file_uri)
         filter_and_close_dependencies_(f->files_to_close(), f);
 }
 
-void workspace::refresh_libraries()
+bool workspace::refresh_libraries()
 {
+    bool changed = false;
     for (auto& proc_grp : proc_grps_)
     {
         for (auto& lib : proc_grp.second.libraries())
         {
-            lib->refresh();
+            changed |= lib->refresh();
         }
     }
+    return changed;
 }
 
-void workspace::did_open_file(const std::string& file_uri) { parse_file(file_uri); }
+void workspace::did_open_file(const std::string& file_uri)
+{
+    opened_files_.insert(file_uri);
+    parse_file(file_uri);
+}
 
 void workspace::did_close_file(const std::string& file_uri)
 {
     diag_suppress_notified_[file_uri] = false;
+    opened_files_.erase(file_uri);
     // first check whether the file is a dependency
-    // if so, simply close it, no other action is needed
+    // if so, simply close it and use its content on the disk again
     if (is_dependency_(file_uri))
     {
         file_manager_.did_close_file(file_uri);
+        parse_file(file_uri);
         return;
     }
 
@@ -265,8 +291,14 @@ void workspace::did_change_file(const std::string file_uri, const document_chang
 
 void workspace::did_change_watched_files(const std::string& file_uri)
 {
-    refresh_libraries();
-    parse_file(file_uri);
+    // files that are not open in the editor have to be read again
+    if (auto file = file_manager_.find(file_uri); file && !file->get_lsp_editing())
+        file_manager_.remove_file(file_uri);
+
+    if (refresh_libraries() && !is_config_file_(file_uri))
+        parse_programs_(find_programs_());
+    else
+        parse_file(file_uri);
 }
 
 location workspace::definition(const std::string& document_uri, const position pos) const
@@ -339,6 +371,11 @@ bool workspace::load_and_process_config()
     if (!load_ok)
         return false;
 
+    // the previous configuration is in effect until both files are valid
+    proc_grps_.clear();
+    exact_pgm_conf_.clear();
+    regex_pgm_conf_.clear();
+
     // Extract extension list for compatibility reasons
     std::vector<std::string> macro_extensions_compatibility_list;
     for (const auto& wildcard : pgm_config.always_recognize)
@@ -427,7 +464,6 @@ bool workspace::load_config(config::proc_conf& proc_groups, config::pgm_conf& pg
     try
     {
         nlohmann::json::parse(proc_grps_file->get_text()).get_to(proc_groups);
-        proc_grps_.clear();
         for (const auto& pg : proc_groups.pgroups)
             if (!pg.asm_options.valid())
                 config_diags_.push_back(diagnostic_s::error_W005(proc_grps_file->get_file_name(), pg.name));
@@ -448,8 +484,6 @@ bool workspace::load_config(config::proc_conf& proc_groups, config::pgm_conf& pg
     try
     {
         nlohmann::json::parse(pgm_conf_file->get_text()).get_to(pgm_config);
-        exact_pgm_conf_.clear();
-        regex_pgm_conf_.clear();
     }
     catch (const nlohmann::json::exception&)
     {
diff --git a/parser_library/src/workspaces/workspace.h b/parser_library/src/workspaces/workspace.h
index 667a27b..93ec3c0 100644
--- a/parser_library/src/workspaces/workspace.h
+++ b/parser_library/src/workspaces/workspace.h
@@ -88,7 +88,8 @@ public:
     const processor_group& get_proc_grp_by_program(const std::string& program) const;
 
     void parse_file(const std::string& file_uri);
-    void refresh_libraries();
+    // returns whether the contents of any library has changed
+    bool refresh_libraries();
     void did_open_file(const std::string& file_uri);
     void did_close_file(const std::string& file_uri);
     void did_change_file(const std::string document_uri, const document_change* changes, size_t ch_size);
@@ -150,8 +151,16 @@ private:
     // files, that depend on others (e.g. open code files that use macros)
     std::set<std::string> dependants_;
 
+    // files open in the editor
+    std::set<std::string> opened_files_;
+
     diagnostic_container config_diags_;
 
+    bool is_config_file_(const std::string& file_uri) const;
+    // open programs and files that depend on others
+    std::vector<processor_file_ptr> find_programs_();
+    void parse_programs_(const std::vector<processor_file_ptr>& files_to_parse);
+
     void filter_and_close_dependencies_(const std::set<std::string>& dependencies, processor_file_ptr file);
     bool is_dependency_(const std::string& file_uri);
 
-- 
2.43.0


From 074eefbf00132dfc889688f64d83c8564400fc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:44 +0000
Subject: [PATCH 37/46] fix: documents belong to the innermost workspace folder
 that contains them, workspace folders can be removed

---
 parser_library/src/workspace_manager_impl.h | 32 ++++++++++-----------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/parser_library/src/workspace_manager_impl.h b/parser_library/src/workspace_manager_impl.h
index 7b087d3..8e671e2 100644
--- a/parser_library/src/workspace_manager_impl.h
+++ b/parser_library/src/workspace_manager_impl.h
@@ -15,6 +15,8 @@
 #ifndef HLASMPLUGIN_PARSERLIBRARY_WORKSPACE_MANAGER_IMPL_H
 #define HLASMPLUGIN_PARSERLIBRARY_WORKSPACE_MANAGER_IMPL_H
 
+#include <filesystem>
+
 #include "debugging/debug_lib_provider.h"
 #include "workspace_manager.h"
 #include "workspaces/file_manager_impl.h"
@@ -54,7 +56,7 @@ public:
 
     void add_workspace(std::string name, std::string uri)
     {
-        auto ws = workspaces_.emplace(name, workspaces::workspace(uri, name, file_manager_, global_config_, cancel_));
+        auto ws = workspaces_.emplace(uri, workspaces::workspace(uri, name, file_manager_, global_config_, cancel_));
         ws.first->second.set_message_consumer(message_consumer_);
         ws.first->second.open();
 
@@ -212,13 +214,12 @@ private:
     {
         size_t max = 0;
         workspaces::workspace* max_ws = nullptr;
-        for (auto& ws : workspaces_)
+        for (auto& [uri, ws] : workspaces_)
         {
-            size_t match = prefix_match(document_uri, ws.second.uri());
-            if (match > max && match >= ws.first.size())
+            if (uri.size() > max && contains(uri, document_uri))
             {
-                max = match;
-                max_ws = &ws.second;
+                max = uri.size();
+                max_ws = &ws;
             }
         }
         if (max_ws == nullptr)
@@ -252,18 +253,15 @@ private:
         }
     }
 
-    size_t prefix_match(const std::string& first, const std::string& second) const
+    // the folder contains the documents whose path continues with a separator behind the path of the folder
+    static bool contains(const std::string& folder, const std::string& document)
     {
-        size_t match = 0;
-        size_t i1 = 0;
-        size_t i2 = 0;
-        while (first[i1] == second[i2] && i1 < first.size() && i2 < second.size())
-        {
-            ++i1;
-            ++i2;
-            ++match;
-        }
-        return match;
+        const auto is_separator = [](char c) {
+            return c == '/' || c == (char)std::filesystem::path::preferred_separator;
+        };
+        if (folder.empty() || document.size() <= folder.size() || document.compare(0, folder.size(), folder) != 0)
+            return false;
+        return is_separator(folder.back()) || is_separator(document[folder.size()]);
     }
     std::vector<debugging::variable*> temp_variables_;
 
-- 
2.43.0


From e9fedae6c2ac1afa950e2795cde08c06b339eb34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:11 +0000
Subject: [PATCH 38/46] fix: sequence symbols on macro calls and unknown
 operations in open code are registered

---
 .../statement_processors/ordinary_processor.cpp      | 12 ++++++++++++
 .../statement_processors/ordinary_processor.h        |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/parser_library/src/processing/statement_processors/ordinary_processor.cpp b/parser_library/src/processing/statement_processors/ordinary_processor.cpp
index c548fb4..adee323 100644
--- a/parser_library/src/processing/statement_processors/ordinary_processor.cpp
+++ b/parser_library/src/processing/statement_processors/ordinary_processor.cpp
@@ -30,6 +30,7 @@ ordinary_processor::ordinary_processor(analyzing_context ctx,
     opencode_provider& open_code)
     : statement_processor(processing_kind::ORDINARY, ctx)
     , eval_ctx { ctx, lib_provider }
+    , branch_provider_(branch_provider)
     , ca_proc_(ctx, branch_provider, lib_provider, state_listener, open_code)
     , mac_proc_(ctx, branch_provider, lib_provider)
     , asm_proc_(ctx, branch_provider, lib_provider, parser, open_code)
@@ -82,6 +83,7 @@ void ordinary_processor::process_statement(context::shared_stmt_ptr statement)
     switch (statement->access_resolved()->opcode_ref().type)
     {
         case context::instruction_type::UNDEF:
+            register_sequence_symbol(*statement->access_resolved());
             add_diagnostic(diagnostic_op::error_E049(*statement->access_resolved()->opcode_ref().value,
                 statement->access_resolved()->instruction_ref().field_range));
             return;
@@ -89,6 +91,7 @@ void ordinary_processor::process_statement(context::shared_stmt_ptr statement)
             ca_proc_.process(std::move(statement));
             return;
         case context::instruction_type::MAC:
+            register_sequence_symbol(*statement->access_resolved());
             mac_proc_.process(std::move(statement));
             return;
         case context::instruction_type::ASM:
@@ -103,6 +106,15 @@ void ordinary_processor::process_statement(context::shared_stmt_ptr statement)
     }
 }
 
+void ordinary_processor::register_sequence_symbol(const resolved_statement& statement)
+{
+    if (statement.label_ref().type != semantics::label_si_type::SEQ)
+        return;
+
+    const auto& symbol = std::get<semantics::seq_sym>(statement.label_ref().value);
+    branch_provider_.register_sequence_symbol(symbol.name, symbol.symbol_range);
+}
+
 void ordinary_processor::end_processing()
 {
     hlasm_ctx.ord_ctx.symbol_dependencies.add_defined(&asm_proc_);
diff --git a/parser_library/src/processing/statement_processors/ordinary_processor.h b/parser_library/src/processing/statement_processors/ordinary_processor.h
index 008e5d7..18304a4 100644
--- a/parser_library/src/processing/statement_processors/ordinary_processor.h
+++ b/parser_library/src/processing/statement_processors/ordinary_processor.h
@@ -33,6 +33,8 @@ class ordinary_processor : public statement_processor
 
     expressions::evaluation_context eval_ctx;
 
+    branching_provider& branch_provider_;
+
     ca_processor ca_proc_;
     macro_processor mac_proc_;
     asm_processor asm_proc_;
@@ -64,6 +66,7 @@ public:
 private:
     void check_postponed_statements(std::vector<context::post_stmt_ptr> stmts);
     bool check_fatals(range line_range);
+    void register_sequence_symbol(const resolved_statement& statement);
 
     context::id_index resolve_instruction(const semantics::concat_chain& chain, range instruction_range) const;
 };
-- 
2.43.0


From 8f098d396b2897825c0ae6fc54505e1515e32d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:11 +0000
Subject: [PATCH 39/46] fix: EXTRN of defined symbols and redefinition of data
 labels with dependencies no longer crash

---
 .../instruction_sets/asm_processor.cpp        | 30 +++++++++++--------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/parser_library/src/processing/instruction_sets/asm_processor.cpp b/parser_library/src/processing/instruction_sets/asm_processor.cpp
index 0e35652..78347ee 100644
--- a/parser_library/src/processing/instruction_sets/asm_processor.cpp
+++ b/parser_library/src/processing/instruction_sets/asm_processor.cpp
@@ -240,7 +240,10 @@ void asm_processor::process_data_instruction(rebuilt_statement stmt)
                     context::symbol_origin::DAT, type, len, scale, value.get_integer_attribute()));
         }
         else
+        {
             add_diagnostic(diagnostic_op::error_E031("symbol", stmt.label_ref().field_range));
+            label = context::id_storage::empty_id;
+        }
     }
 
     // TODO issue warning when alignment is bigger than section's alignment
@@ -325,20 +328,21 @@ void asm_processor::process_COPY(rebuilt_statement stmt)
 
 void asm_processor::process_EXTRN(rebuilt_statement stmt)
 {
-    if (stmt.operands_ref().value.size())
+    for (const auto& operand : stmt.operands_ref().value)
     {
-        if (auto op = stmt.operands_ref().value.front()->access_asm())
-        {
-            if (auto expr = op->access_expr())
-            {
-                auto sym = dynamic_cast<const expressions::mach_expr_symbol*>(expr->expression.get());
-                if (sym)
-                    create_symbol(sym->get_range(),
-                        sym->value,
-                        hlasm_ctx.ord_ctx.align(context::no_align),
-                        context::symbol_attributes::make_extrn_attrs());
-            }
-        }
+        auto op = operand->access_asm();
+        auto expr = op ? op->access_expr() : nullptr;
+        auto sym = expr ? dynamic_cast<const expressions::mach_expr_symbol*>(expr->expression.get()) : nullptr;
+        if (!sym)
+            continue;
+
+        if (hlasm_ctx.ord_ctx.symbol_defined(sym->value))
+            add_diagnostic(diagnostic_op::error_E031("symbol", sym->get_range()));
+        else
+            create_symbol(sym->get_range(),
+                sym->value,
+                hlasm_ctx.ord_ctx.align(context::no_align),
+                context::symbol_attributes::make_extrn_attrs());
     }
     check(stmt, hlasm_ctx, checker_, *this);
 }
-- 
2.43.0


From eec5e544e36f30b41c04b709490dcd48ede4bbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:11 +0000
Subject: [PATCH 40/46] fix: completion at the end of a document no longer
 fails

---
 parser_library/src/lsp/text_data_ref_t.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser_library/src/lsp/text_data_ref_t.cpp b/parser_library/src/lsp/text_data_ref_t.cpp
index 4625d03..6ab5414 100644
--- a/parser_library/src/lsp/text_data_ref_t.cpp
+++ b/parser_library/src/lsp/text_data_ref_t.cpp
@@ -29,7 +29,7 @@ std::string_view text_data_ref_t::get_line(size_t line) const
         return "";
     size_t line_end_i = (line < line_indices.size() - 1) ? line_indices[line + 1] : text->size();
     size_t line_len = line_end_i - line_indices[line];
-    return { &text->at(line_indices[line]), line_len };
+    return std::string_view(*text).substr(line_indices[line], line_len);
 }
 
 std::string_view text_data_ref_t::get_line_beginning(position pos) const
@@ -38,7 +38,7 @@ std::string_view text_data_ref_t::get_line_beginning(position pos) const
         return "";
     size_t line_end_i = workspaces::file_impl::index_from_position(*text, line_indices, pos);
     size_t line_len = line_end_i - line_indices[pos.line];
-    return { &text->at(line_indices[pos.line]), line_len };
+    return std::string_view(*text).substr(line_indices[pos.line], line_len);
 }
 
 
@@ -48,7 +48,9 @@ char text_data_ref_t::get_character_before(position pos) const
     if (pos.column == 0)
         return '\0';
     size_t index = workspaces::file_impl::index_from_position(*text, line_indices, { pos.line, pos.column - 1 });
-    return text->at(index);
+    if (index >= text->size())
+        return '\0';
+    return (*text)[index];
 }
 
 std::string_view text_data_ref_t::get_range_content(range r) const
-- 
2.43.0


From 7798a12c2b942cc272ea89f2e950548efee78022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:11 +0000
Subject: [PATCH 41/46] fix: variable symbols in strings and subscripts are
 found by definition and references requests

---
 parser_library/src/lsp/file_info.cpp                | 11 ++++++-----
 .../statement_analyzers/occurence_collector.cpp     | 13 +++++++++++--
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/parser_library/src/lsp/file_info.cpp b/parser_library/src/lsp/file_info.cpp
index e0ec779..55dd874 100644
--- a/parser_library/src/lsp/file_info.cpp
+++ b/parser_library/src/lsp/file_info.cpp
@@ -56,13 +56,14 @@ occurence_scope_t file_info::find_occurence_with_scope(position pos) const
 {
     const symbol_occurence* found = nullptr;
 
-    // find in occurences
+    // find in occurences; symbols in the subscript of another symbol lie within its range
+    const auto is_inside = [](const range& inner, const range& outer) {
+        return !(inner == outer) && is_in_range(inner.start, outer) && is_in_range(inner.end, outer);
+    };
     for (const auto& occ : occurences)
-        if (is_in_range(pos, occ.occurence_range))
-        {
+        if (is_in_range(pos, occ.occurence_range)
+            && (!found || is_inside(occ.occurence_range, found->occurence_range)))
             found = &occ;
-            break;
-        }
 
     // if not found, return
     if (!found)
diff --git a/parser_library/src/processing/statement_analyzers/occurence_collector.cpp b/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
index a4d97e1..ed1c3d4 100644
--- a/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
+++ b/parser_library/src/processing/statement_analyzers/occurence_collector.cpp
@@ -121,6 +121,9 @@ void occurence_collector::get_occurence(const semantics::variable_symbol& var)
         else
             occurences.emplace_back(lsp::occurence_kind::VAR, var.access_basic()->name, var.symbol_range);
     }
+    for (const auto& subscript : var.subscript)
+        if (subscript)
+            subscript->apply(*this);
 }
 
 void occurence_collector::get_occurence(const semantics::seq_sym& seq)
@@ -151,8 +154,7 @@ void occurence_collector::get_occurence(const semantics::concat_chain& chain)
                 }
                 break;
             case semantics::concat_type::VAR:
-                if (collector_kind == lsp::occurence_kind::VAR)
-                    get_occurence(*point->access_var()->access_var()->symbol);
+                get_occurence(*point->access_var()->access_var()->symbol);
                 break;
             case semantics::concat_type::SUB:
                 for (const auto& ch : point->access_sub()->list)
@@ -202,6 +204,13 @@ void occurence_collector::visit(const expressions::ca_string& expr)
 {
     if (expr.duplication_factor)
         expr.duplication_factor->apply(*this);
+    // the text of a string refers to variable symbols only
+    if (collector_kind == lsp::occurence_kind::VAR)
+        get_occurence(expr.value);
+    if (expr.substring.start)
+        expr.substring.start->apply(*this);
+    if (expr.substring.count)
+        expr.substring.count->apply(*this);
 }
 
 void occurence_collector::visit(const expressions::ca_symbol& expr) { get_occurence(expr.symbol, expr.expr_range); }
-- 
2.43.0


From 62e6ae48754076cf2b045f767470c6dfaf50bea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:19 +0000
Subject: [PATCH 42/46] fix: programs are processed again when a library member
 they looked at is repaired

---
 parser_library/src/context/hlasm_context.cpp          | 2 ++
 parser_library/src/context/hlasm_context.h            | 2 ++
 parser_library/src/workspaces/processor_file_impl.cpp | 3 +++
 3 files changed, 7 insertions(+)

diff --git a/parser_library/src/context/hlasm_context.cpp b/parser_library/src/context/hlasm_context.cpp
index ebac7d8..3de1597 100644
--- a/parser_library/src/context/hlasm_context.cpp
+++ b/parser_library/src/context/hlasm_context.cpp
@@ -730,6 +730,8 @@ const std::string& hlasm_context::opencode_file_name() const { return opencode_f
 
 const std::set<std::string>& hlasm_context::get_visited_files() { return visited_files_; }
 
+void hlasm_context::add_visited_file(std::string file) { visited_files_.insert(std::move(file)); }
+
 copy_member_ptr hlasm_context::add_copy_member(
     id_index member, statement_block definition, location definition_location)
 {
diff --git a/parser_library/src/context/hlasm_context.h b/parser_library/src/context/hlasm_context.h
index 7f8ddb2..7647216 100644
--- a/parser_library/src/context/hlasm_context.h
+++ b/parser_library/src/context/hlasm_context.h
@@ -91,6 +91,8 @@ public:
     const std::string& opencode_file_name() const;
     // accesses visited files
     const std::set<std::string>& get_visited_files();
+    // adds a file the processing depends on
+    void add_visited_file(std::string file);
 
     // gets current source
     const source_context& current_source() const;
diff --git a/parser_library/src/workspaces/processor_file_impl.cpp b/parser_library/src/workspaces/processor_file_impl.cpp
index d7f6cd1..5ce2f5b 100644
--- a/parser_library/src/workspaces/processor_file_impl.cpp
+++ b/parser_library/src/workspaces/processor_file_impl.cpp
@@ -71,6 +71,9 @@ parse_result processor_file_impl::parse(parse_lib_provider& lib_provider)
 parse_result processor_file_impl::parse_macro(
     parse_lib_provider& lib_provider, analyzing_context ctx, const library_data data)
 {
+    // the processing depends on the file even if it does not define what was looked for
+    ctx.hlasm_ctx->add_visited_file(get_file_name());
+
     analyzer_ =
         std::make_unique<analyzer>(get_text(), get_file_name(), std::move(ctx), lib_provider, data, get_lsp_editing());
 
-- 
2.43.0


From de3e742b4a4dd12eb3014b25f0f23ede78dfca71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:22 +0000
Subject: [PATCH 43/46] fix: locations used several times or with a minus sign
 in a complex relocatable value follow lengths defined later

---
 .../src/context/ordinary_assembly/address.cpp      | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/parser_library/src/context/ordinary_assembly/address.cpp b/parser_library/src/context/ordinary_assembly/address.cpp
index ca6fa37..ec4ed27 100644
--- a/parser_library/src/context/ordinary_assembly/address.cpp
+++ b/parser_library/src/context/ordinary_assembly/address.cpp
@@ -128,7 +128,7 @@ int get_space_offset(space_ptr sp)
     {
         offset += sp->resolved_length;
         for (const auto& s : sp->resolved_ptrs)
-            offset += get_space_offset(s.first);
+            offset += get_space_offset(s.first) * s.second;
     }
     return offset;
 }
@@ -137,7 +137,7 @@ int address::offset() const
 {
     int offs = offset_;
     for (const auto& s : spaces_)
-        offs += get_space_offset(s.first);
+        offs += get_space_offset(s.first) * s.second;
     return offs;
 }
 
@@ -158,18 +158,20 @@ void insert(const address::space_entry& sp,
 
 int get_unresolved_spaces(const std::vector<address::space_entry>& spaces,
     std::unordered_map<space_ptr, size_t>& normalized_map,
-    std::vector<address::space_entry>& normalized_spaces)
+    std::vector<address::space_entry>& normalized_spaces,
+    int multiplicity = 1)
 {
     int offset = 0;
     for (const auto& sp : spaces)
     {
         if (sp.first->resolved())
         {
-            offset += sp.first->resolved_length;
-            offset += get_unresolved_spaces(sp.first->resolved_ptrs, normalized_map, normalized_spaces);
+            offset += sp.first->resolved_length * sp.second * multiplicity;
+            offset += get_unresolved_spaces(
+                sp.first->resolved_ptrs, normalized_map, normalized_spaces, sp.second * multiplicity);
         }
         else
-            insert(sp, normalized_map, normalized_spaces);
+            insert(address::space_entry(sp.first, sp.second * multiplicity), normalized_map, normalized_spaces);
     }
 
     return offset;
-- 
2.43.0


From a0c27ecb7b50135c9ff7d2e20fa7475321ed3f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:11 +0000
Subject: [PATCH 44/46] fix: every LSP request is answered and malformed
 messages do not end the server

---
 language_server/src/feature.cpp               |  6 +--
 .../src/lsp/feature_language_features.cpp     | 24 +++++----
 .../src/lsp/feature_text_synchronization.cpp  | 10 ++--
 .../src/lsp/feature_workspace_folders.cpp     | 19 +++----
 language_server/src/lsp/lsp_server.cpp        | 53 +++++++++++--------
 language_server/src/server.cpp                | 11 +++-
 language_server/src/server.h                  |  7 +++
 7 files changed, 78 insertions(+), 52 deletions(-)

diff --git a/language_server/src/feature.cpp b/language_server/src/feature.cpp
index ca4f2f3..3b92ce9 100644
--- a/language_server/src/feature.cpp
+++ b/language_server/src/feature.cpp
@@ -105,13 +105,13 @@ std::string feature::path_to_uri(std::string_view path)
 
 parser_library::range feature::parse_range(const json& range_json)
 {
-    return { parse_position(range_json["start"]), parse_position(range_json["end"]) };
+    return { parse_position(range_json.at("start")), parse_position(range_json.at("end")) };
 }
 
 parser_library::position feature::parse_position(const json& position_json)
 {
-    return { position_json["line"].get<nlohmann::json::number_unsigned_t>(),
-        position_json["character"].get<nlohmann::json::number_unsigned_t>() };
+    return { position_json.at("line").get<nlohmann::json::number_unsigned_t>(),
+        position_json.at("character").get<nlohmann::json::number_unsigned_t>() };
 }
 
 json feature::range_to_json(const parser_library::range& range)
diff --git a/language_server/src/lsp/feature_language_features.cpp b/language_server/src/lsp/feature_language_features.cpp
index 756b921..2eac588 100644
--- a/language_server/src/lsp/feature_language_features.cpp
+++ b/language_server/src/lsp/feature_language_features.cpp
@@ -78,9 +78,9 @@ void feature_language_features::initialize_feature(const json&)
 
 void feature_language_features::definition(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
     auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+        parser_library::position(params.at("position").at("line").get<int>(), params.at("position").at("character").get<int>());
 
 
     auto definition_position_uri = ws_mngr_.definition(uri_to_path(document_uri).c_str(), pos);
@@ -93,9 +93,9 @@ void feature_language_features::definition(const json& id, const json& params)
 
 void feature_language_features::references(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
     auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+        parser_library::position(params.at("position").at("line").get<int>(), params.at("position").at("character").get<int>());
     json to_ret = json::array();
     auto references = ws_mngr_.references(uri_to_path(document_uri).c_str(), pos);
     for (size_t i = 0; i < references.size(); ++i)
@@ -108,9 +108,9 @@ void feature_language_features::references(const json& id, const json& params)
 }
 void feature_language_features::hover(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
     auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+        parser_library::position(params.at("position").at("line").get<int>(), params.at("position").at("character").get<int>());
 
 
     auto hover_list = ws_mngr_.hover(uri_to_path(document_uri).c_str(), pos);
@@ -166,11 +166,13 @@ json feature_language_features::get_markup_content(std::string_view content)
 
 void feature_language_features::completion(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
     auto pos =
-        parser_library::position(params["position"]["line"].get<int>(), params["position"]["character"].get<int>());
+        parser_library::position(params.at("position").at("line").get<int>(), params.at("position").at("character").get<int>());
 
-    int trigger_kind_int = params["context"]["triggerKind"].get<int>();
+    // the context is optional
+    const auto context = params.value("context", json::object());
+    int trigger_kind_int = context.value("triggerKind", 1);
     parser_library::completion_trigger_kind trigger_kind = (trigger_kind_int >= 1 && trigger_kind_int <= 3)
         ? (parser_library::completion_trigger_kind)trigger_kind_int
         : parser_library::completion_trigger_kind::invoked;
@@ -178,7 +180,7 @@ void feature_language_features::completion(const json& id, const json& params)
     // no trigger character
     char trigger_char = '\0';
     if (trigger_kind == parser_library::completion_trigger_kind::trigger_character)
-        trigger_char = params["context"]["triggerCharacter"].get<std::string>()[0];
+        trigger_char = context.at("triggerCharacter").get<std::string>()[0];
 
     auto completion_list = ws_mngr_.completion(uri_to_path(document_uri).c_str(), pos, trigger_char, trigger_kind);
     json to_ret = json::value_t::null;
@@ -236,7 +238,7 @@ json convert_tokens_to_num_array(const std::vector<parser_library::token_info>&
 
 void feature_language_features::semantic_tokens(const json& id, const json& params)
 {
-    auto document_uri = params["textDocument"]["uri"].get<std::string>();
+    auto document_uri = params.at("textDocument").at("uri").get<std::string>();
 
     auto tokens = ws_mngr_.semantic_tokens(uri_to_path(document_uri).c_str());
     json num_array = convert_tokens_to_num_array(tokens);
diff --git a/language_server/src/lsp/feature_text_synchronization.cpp b/language_server/src/lsp/feature_text_synchronization.cpp
index 2ac129a..9921c38 100644
--- a/language_server/src/lsp/feature_text_synchronization.cpp
+++ b/language_server/src/lsp/feature_text_synchronization.cpp
@@ -55,7 +55,7 @@ void feature_text_synchronization::initialize_feature(const json&)
 
 void feature_text_synchronization::on_did_open(const json&, const json& params)
 {
-    json text_doc = params["textDocument"];
+    json text_doc = params.at("textDocument");
     std::string doc_uri = text_doc["uri"].get<std::string>();
     auto version = text_doc["version"].get<nlohmann::json::number_unsigned_t>();
     std::string text = text_doc["text"].get<std::string>();
@@ -73,12 +73,12 @@ void feature_text_synchronization::on_did_open(const json&, const json& params)
 
 void feature_text_synchronization::on_did_change(const json&, const json& params)
 {
-    json text_doc = params["textDocument"];
+    json text_doc = params.at("textDocument");
     std::string doc_uri = text_doc["uri"].get<std::string>();
 
     auto version = text_doc["version"].get<nlohmann::json::number_unsigned_t>();
 
-    json content_changes = params["contentChanges"];
+    json content_changes = params.at("contentChanges");
 
     std::vector<parser_library::document_change> changes;
     std::vector<std::string> texts(content_changes.size());
@@ -99,12 +99,12 @@ void feature_text_synchronization::on_did_change(const json&, const json& params
 
         ++i;
     }
-    ws_mngr_.did_change_file(uri_to_path(doc_uri).c_str(), version, &*changes.begin(), changes.size());
+    ws_mngr_.did_change_file(uri_to_path(doc_uri).c_str(), version, changes.data(), changes.size());
 }
 
 void feature_text_synchronization::on_did_close(const json&, const json& params)
 {
-    std::string uri = params["textDocument"]["uri"].get<std::string>();
+    std::string uri = params.at("textDocument").at("uri").get<std::string>();
 
     ws_mngr_.did_close_file(uri_to_path(uri).c_str());
 }
diff --git a/language_server/src/lsp/feature_workspace_folders.cpp b/language_server/src/lsp/feature_workspace_folders.cpp
index e3067e3..cc13bd6 100644
--- a/language_server/src/lsp/feature_workspace_folders.cpp
+++ b/language_server/src/lsp/feature_workspace_folders.cpp
@@ -57,7 +57,7 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
     send_configuration_request();
 
     bool ws_folders_support = false;
-    auto capabs = initialize_params["capabilities"];
+    auto capabs = initialize_params.at("capabilities");
     auto ws = capabs.find("workspace");
     if (ws != capabs.end())
     {
@@ -66,9 +66,10 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
             ws_folders_support = ws_folders->get<bool>();
     }
 
-    if (ws_folders_support)
+    auto folders = initialize_params.find("workspaceFolders");
+    if (ws_folders_support && folders != initialize_params.end())
     {
-        add_workspaces(initialize_params["workspaceFolders"]);
+        add_workspaces(folders.value());
         return;
     }
 
@@ -92,8 +93,8 @@ void feature_workspace_folders::initialize_feature(const json& initialize_params
 
 void feature_workspace_folders::on_did_change_workspace_folders(const json&, const json& params)
 {
-    const auto& added = params["event"]["added"];
-    const auto& removed = params["event"]["removed"];
+    const auto& added = params.at("event").at("added");
+    const auto& removed = params.at("event").at("removed");
 
     remove_workspaces(removed);
     add_workspaces(added);
@@ -103,8 +104,8 @@ void feature_workspace_folders::add_workspaces(const json& added)
 {
     for (auto& it : added)
     {
-        const std::string& name = it["name"].get<std::string>();
-        std::string uri = it["uri"].get<std::string>();
+        const std::string& name = it.at("name").get<std::string>();
+        std::string uri = it.at("uri").get<std::string>();
 
         add_workspace(name, uri_to_path(uri));
     }
@@ -125,7 +126,7 @@ void feature_workspace_folders::add_workspace(const std::string& name, const std
 
 void feature_workspace_folders::did_change_watched_files(const json&, const json& params)
 {
-    std::vector<json> changes = params["changes"];
+    std::vector<json> changes = params.at("changes");
     std::vector<std::string> paths;
     for (auto& change : changes)
     {
@@ -163,7 +164,7 @@ void feature_workspace_folders::configuration(const json&, const json& params) c
         return;
     }
 
-    ws_mngr_.configuration_changed(parser_library::lib_config::load_from_json(params[0]));
+    ws_mngr_.configuration_changed(parser_library::lib_config::load_from_json(params.at(0)));
 }
 
 void feature_workspace_folders::did_change_configuration(const json&, const json&) { send_configuration_request(); }
diff --git a/language_server/src/lsp/lsp_server.cpp b/language_server/src/lsp/lsp_server.cpp
index 785d99c..32274b7 100644
--- a/language_server/src/lsp/lsp_server.cpp
+++ b/language_server/src/lsp/lsp_server.cpp
@@ -65,7 +65,14 @@ void server::message_received(const json& message)
 
         method handler = handler_found->second;
         request_handlers_.erase(handler_found);
-        handler(id_found.value(), result_found.value());
+        try
+        {
+            handler(id_found.value(), result_found.value());
+        }
+        catch (const std::exception& e)
+        {
+            LOG_ERROR(e.what());
+        }
         return;
     }
     else if (error_result_found != message.end())
@@ -74,8 +81,10 @@ void server::message_received(const json& message)
         std::string warn_message;
         if (message_found != error_result_found->end())
             warn_message = message_found->dump();
-        else
+        else if (id_found != message.end())
             warn_message = "Request with id " + id_found->dump() + " returned with unspecified error.";
+        else
+            warn_message = "A request returned with unspecified error.";
         LOG_WARNING(warn_message);
         return;
     }
@@ -83,30 +92,20 @@ void server::message_received(const json& message)
     auto params_found = message.find("params");
     auto method_found = message.find("method");
 
-    if (params_found == message.end() || method_found == message.end())
-    {
-        LOG_WARNING("Method or params missing from received request or notification");
-        return;
-    }
+    // notifications have no id
+    const json id = id_found == message.end() ? json() : id_found.value();
 
-    try
-    {
-        if (id_found == message.end())
-        {
-            // notification
-            call_method(method_found.value().get<std::string>(), "", params_found.value());
-        }
-        else
-        {
-            // method
-            call_method(method_found.value().get<std::string>(), id_found.value(), params_found.value());
-        }
-    }
-    catch (const std::exception& e)
+    if (method_found == message.end() || !method_found->is_string())
     {
-        LOG_ERROR(e.what());
+        LOG_WARNING("Method missing from received request or notification");
+        if (!id.is_null())
+            respond_error(id, "", invalid_request, "Method missing", json());
         return;
     }
+
+    // params may be omitted
+    call_method(
+        method_found->get<std::string>(), id, params_found == message.end() ? json() : params_found.value());
 }
 
 void server::request(const json& id, const std::string& requested_method, const json& args, method handler)
@@ -183,7 +182,15 @@ void server::on_initialize(json id, const json& param)
 
     for (auto& f : features_)
     {
-        f->initialize_feature(param);
+        try
+        {
+            f->initialize_feature(param);
+        }
+        catch (const std::exception& e)
+        {
+            // the request has been answered already
+            LOG_ERROR(e.what());
+        }
     }
 }
 
diff --git a/language_server/src/server.cpp b/language_server/src/server.cpp
index 56d4fb7..7a9082f 100644
--- a/language_server/src/server.cpp
+++ b/language_server/src/server.cpp
@@ -52,8 +52,15 @@ void server::call_method(const std::string& method, const json& id, const json&
         }
         catch (const nlohmann::basic_json<>::exception& e)
         {
-            (void)e;
             LOG_WARNING("There is an error regarding the JSON or LSP:" + std::string(e.what()));
+            if (!id.is_null())
+                respond_error(id, method, invalid_params, "Invalid parameters", e.what());
+        }
+        catch (const std::exception& e)
+        {
+            LOG_ERROR(e.what());
+            if (!id.is_null())
+                respond_error(id, method, internal_error, "Internal error", e.what());
         }
     }
     else
@@ -61,6 +68,8 @@ void server::call_method(const std::string& method, const json& id, const json&
         std::ostringstream ss;
         ss << "Method " << method << " is not available on this server.";
         LOG_WARNING(ss.str());
+        if (!id.is_null())
+            respond_error(id, method, method_not_found, ss.str(), json());
     }
 }
 
diff --git a/language_server/src/server.h b/language_server/src/server.h
index b1d8146..1590200 100644
--- a/language_server/src/server.h
+++ b/language_server/src/server.h
@@ -67,7 +67,14 @@ protected:
 
     void register_feature_methods();
 
+    // Error codes defined by JSON-RPC
+    static constexpr int invalid_request = -32600;
+    static constexpr int method_not_found = -32601;
+    static constexpr int invalid_params = -32602;
+    static constexpr int internal_error = -32603;
+
     // Calls a method that is registered in methods_ with the specified name with arguments and id of request.
+    // The id is null for notifications. Requests that cannot be carried out are answered with an error.
     void call_method(const std::string& method, const json& id, const json& args);
 };
 
-- 
2.43.0


From d8c8e89665dd3e0ec4e8da03a850afbee967e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:43 +0000
Subject: [PATCH 45/46] fix: every DAP request is answered and optional
 arguments may be omitted

---
 language_server/src/dap/dap_feature.cpp | 42 ++++++++++++++-----------
 language_server/src/dap/dap_feature.h   |  1 +
 2 files changed, 25 insertions(+), 18 deletions(-)

diff --git a/language_server/src/dap/dap_feature.cpp b/language_server/src/dap/dap_feature.cpp
index e8216e4..c4416a3 100644
--- a/language_server/src/dap/dap_feature.cpp
+++ b/language_server/src/dap/dap_feature.cpp
@@ -95,11 +95,12 @@ void dap_feature::exited(int exit_code)
 
 void dap_feature::on_initialize(const json& requested_seq, const json& args)
 {
-    response_->respond(requested_seq, "initialize", json { { "supportsConfigurationDoneRequest", true } });
+    // these arguments are optional
+    line_1_based_ = args.value("linesStartAt1", true) ? 1 : 0;
+    column_1_based_ = args.value("columnsStartAt1", true) ? 1 : 0;
+    path_format_ = args.value("pathFormat", "path") == "path" ? path_format::PATH : path_format::URI;
 
-    line_1_based_ = args["linesStartAt1"].get<bool>() ? 1 : 0;
-    column_1_based_ = args["columnsStartAt1"].get<bool>() ? 1 : 0;
-    path_format_ = args["pathFormat"].get<std::string>() == "path" ? path_format::PATH : path_format::URI;
+    response_->respond(requested_seq, "initialize", json { { "supportsConfigurationDoneRequest", true } });
 
     debugger.emplace();
 
@@ -116,14 +117,19 @@ void dap_feature::on_disconnect(const json& request_seq, const json&)
     response_->respond(request_seq, "disconnect", json());
 }
 
+void dap_feature::respond_no_session(const json& request_seq, const std::string& command)
+{
+    response_->respond_error(request_seq, command, 0, "There is no debug session", json());
+}
+
 void dap_feature::on_launch(const json& request_seq, const json& args)
 {
     if (!debugger)
-        return;
+        return respond_no_session(request_seq, "launch");
 
     // wait for configurationDone?
-    std::string program_path = convert_path(args["program"].get<std::string>(), path_format_);
-    bool stop_on_entry = args["stopOnEntry"].get<bool>();
+    std::string program_path = convert_path(args.at("program").get<std::string>(), path_format_);
+    bool stop_on_entry = args.value("stopOnEntry", false);
     auto workspace_id = ws_mngr_.find_workspace(program_path.c_str());
     debugger->set_event_consumer(this);
     debugger->launch(program_path.c_str(), *workspace_id, stop_on_entry);
@@ -134,18 +140,18 @@ void dap_feature::on_launch(const json& request_seq, const json& args)
 void dap_feature::on_set_breakpoints(const json& request_seq, const json& args)
 {
     if (!debugger)
-        return;
+        return respond_no_session(request_seq, "setBreakpoints");
 
     json breakpoints_verified = json::array();
 
-    std::string source = convert_path(args["source"]["path"].get<std::string>(), path_format_);
+    std::string source = convert_path(args.at("source").at("path").get<std::string>(), path_format_);
     std::vector<parser_library::breakpoint> breakpoints;
 
     if (auto bpoints_found = args.find("breakpoints"); bpoints_found != args.end())
     {
         for (auto& bp_json : bpoints_found.value())
         {
-            breakpoints.emplace_back(bp_json["line"].get<json::number_unsigned_t>() - line_1_based_);
+            breakpoints.emplace_back(bp_json.at("line").get<json::number_unsigned_t>() - line_1_based_);
             breakpoints_verified.push_back(json { { "verified", true } });
         }
     }
@@ -179,7 +185,7 @@ void dap_feature::on_threads(const json& request_seq, const json&)
 void dap_feature::on_stack_trace(const json& request_seq, const json&)
 {
     if (!debugger)
-        return;
+        return respond_no_session(request_seq, "stackTrace");
 
     nlohmann::json frames_json = json::array();
 
@@ -204,11 +210,11 @@ void dap_feature::on_stack_trace(const json& request_seq, const json&)
 void dap_feature::on_scopes(const json& request_seq, const json& args)
 {
     if (!debugger)
-        return;
+        return respond_no_session(request_seq, "scopes");
 
     nlohmann::json scopes_json = json::array();
 
-    for (const auto& s : debugger->scopes(args["frameId"].get<json::number_unsigned_t>()))
+    for (const auto& s : debugger->scopes(args.at("frameId").get<json::number_unsigned_t>()))
     {
         auto scope = parser_library::scope(s);
         json scope_json = json { { "name", std::string_view(scope.name) },
@@ -225,7 +231,7 @@ void dap_feature::on_scopes(const json& request_seq, const json& args)
 void dap_feature::on_next(const json& request_seq, const json&)
 {
     if (!debugger)
-        return;
+        return respond_no_session(request_seq, "next");
 
     debugger->next();
 
@@ -235,7 +241,7 @@ void dap_feature::on_next(const json& request_seq, const json&)
 void dap_feature::on_step_in(const json& request_seq, const json&)
 {
     if (!debugger)
-        return;
+        return respond_no_session(request_seq, "stepIn");
 
     debugger->step_in();
     response_->respond(request_seq, "stepIn", json());
@@ -244,11 +250,11 @@ void dap_feature::on_step_in(const json& request_seq, const json&)
 void dap_feature::on_variables(const json& request_seq, const json& args)
 {
     if (!debugger)
-        return;
+        return respond_no_session(request_seq, "variables");
 
     nlohmann::json variables_json = json::array();
 
-    for (auto var : debugger->variables(args["variablesReference"]))
+    for (auto var : debugger->variables(args.at("variablesReference")))
     {
         std::string type;
         switch (var.type)
@@ -288,7 +294,7 @@ void dap_feature::on_variables(const json& request_seq, const json& args)
 void dap_feature::on_continue(const json& request_seq, const json&)
 {
     if (!debugger)
-        return;
+        return respond_no_session(request_seq, "continue");
 
     debugger->continue_debug();
 
diff --git a/language_server/src/dap/dap_feature.h b/language_server/src/dap/dap_feature.h
index 99921e7..f7b7505 100644
--- a/language_server/src/dap/dap_feature.h
+++ b/language_server/src/dap/dap_feature.h
@@ -64,6 +64,7 @@ public:
     void on_continue(const json& request_seq, const json& args);
 
 private:
+    void respond_no_session(const json& request_seq, const std::string& command);
     // Inherited via feature
     void register_methods(std::map<std::string, method>& methods) override;
     json register_capabilities() override;
-- 
2.43.0


From b0dc7ad0917af0e1a13acb96b7dc0e394b897182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:54 +0000
Subject: [PATCH 46/46] fix: continuing the debugged program is never lost and
 stepping needs no running program

---
 parser_library/src/debugging/debugger.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/parser_library/src/debugging/debugger.cpp b/parser_library/src/debugging/debugger.cpp
index e89d7cb..e6dd8b9 100644
--- a/parser_library/src/debugging/debugger.cpp
+++ b/parser_library/src/debugging/debugger.cpp
@@ -20,6 +20,7 @@
 #include <memory>
 #include <mutex>
 #include <optional>
+#include <stdexcept>
 #include <string_view>
 #include <thread>
 #include <unordered_map>
@@ -90,12 +91,14 @@ class debugger::impl final : public processing::statement_analyzer
     std::atomic<bool> stop_on_next_stmt_ = false;
     std::atomic<bool> step_over_ = false;
     size_t step_over_depth_ = 0;
+    // Depth of the statement the debugger has stopped at.
+    size_t stopped_depth_ = 0;
 
     // Range of statement that is about to be processed by analyzer.
     range next_stmt_range_;
 
     // True, if disconnect request was received
-    bool disconnected_ = false;
+    std::atomic<bool> disconnected_ = false;
 
     // Cancellation token for parsing
     std::atomic<bool> cancel_ = false;
@@ -127,7 +130,9 @@ public:
     void launch(
         std::string_view source, workspaces::workspace& workspace, bool stop_on_entry, parse_lib_provider* lib_provider)
     {
-        // TODO: check if already running???
+        if (thread_.joinable())
+            throw std::logic_error("A program has been launched already.");
+
         auto open_code = workspace.get_processor_file(std::string(source));
         opencode_source_path_ = open_code->get_file_name();
         stop_on_next_stmt_ = stop_on_entry;
@@ -193,9 +198,13 @@ public:
 
             std::unique_lock<std::mutex> lck(control_mtx);
             if (disconnected_)
+            {
+                variable_mtx_.lock();
                 return;
+            }
             stop_on_next_stmt_ = false;
             step_over_ = false;
+            stopped_depth_ = proc_stack_.size();
             next_stmt_range_ = stmt_range;
 
             continue_ = false;
@@ -214,7 +223,7 @@ public:
         {
             std::lock_guard<std::mutex> lck(control_mtx);
             step_over_ = true;
-            step_over_depth_ = ctx_->processing_stack().size();
+            step_over_depth_ = stopped_depth_;
             continue_ = true;
         }
         con_var.notify_all();
@@ -249,8 +258,11 @@ public:
 
     void continue_debug()
     {
-        stop_on_next_stmt_ = false;
-        continue_ = true;
+        {
+            std::lock_guard<std::mutex> lck(control_mtx);
+            stop_on_next_stmt_ = false;
+            continue_ = true;
+        }
         con_var.notify_all();
     }
 
-- 
2.43.0

