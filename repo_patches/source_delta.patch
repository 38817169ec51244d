From eaadbd75ae61e10feb5d6a92431bfcaf1ddff52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:07 +0000
Subject: [PATCH 1/5] fix: reject binary literals whose high bits fall off the
 accumulator

checked_shl(1) only fails when the shift amount is too large, never when bits
are lost, so %1 followed by 64 zeros was accepted as 0. Doubling with
checked_mul reports the overflow.
---
 src/assembler/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/assembler/scanner.rs b/src/assembler/scanner.rs
index 90f09d6..e1dba3d 100644
--- a/src/assembler/scanner.rs
+++ b/src/assembler/scanner.rs
@@ -103,7 +103,7 @@ fn parse_12_bit_bin_str<'a>(bin_str: &'a str) -> Result<usize, Error<'a>> {
     if result.is_err() {
       return result;
     } else {
-      accumulator = match accumulator.checked_shl(1) {
+      accumulator = match accumulator.checked_mul(2) {
         Some(shifted) =>
           shifted | result.unwrap(),
         None =>
-- 
2.43.0


From 574376c8b49c171a085e3764c5715eaeb8b9209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:07 +0000
Subject: [PATCH 2/5] fix: let a comment end a directive's literal list

'.db 1,' followed by a newline is accepted but '.db 1, ; comment' was a syntax
error, although a comment ends an instruction's field list.
---
 src/assembler/parser.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/assembler/parser.rs b/src/assembler/parser.rs
index 7dd872b..5f52fc2 100644
--- a/src/assembler/parser.rs
+++ b/src/assembler/parser.rs
@@ -287,9 +287,10 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
    */
   fn parse_literal_list(&mut self, list: Vec<Literal<'a>>) -> Result<Vec<Literal<'a>>, Error<'a>> {
     
-    // The literal list is complete.
-    if let Some(Token::Newline(_)) = self.current_token {
-      return Ok(list);
+    // The literal list is complete on Newline or Single-Line Comment.
+    match self.current_token {
+      Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(list),
+      _ => {}
     }
 
     // Parse the literal and append it to the list.
-- 
2.43.0


From cad0584f88e62c931a9f86f107e27d908cebbddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:29 +0000
Subject: [PATCH 3/5] fix: recognise the timer registers in mixed case

Registers are documented as case-insensitive, but 'Dt', 'dT', 'St' and 'sT'
were taken for label references.
---
 src/assembler/parser.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/assembler/parser.rs b/src/assembler/parser.rs
index 5f52fc2..fa2e59d 100644
--- a/src/assembler/parser.rs
+++ b/src/assembler/parser.rs
@@ -378,8 +378,8 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
         let identifier_field = match id {
 
           // Match special-purpose registers.
-           "dt" | "DT"  => InstructionField::DelayTimer,
-           "st" | "ST"  => InstructionField::SoundTimer,
+           "dt" | "DT" | "Dt" | "dT" => InstructionField::DelayTimer,
+           "st" | "ST" | "St" | "sT" => InstructionField::SoundTimer,
             "i" | "I"   => InstructionField::IndexRegister,
           "[i]" | "[I]" => InstructionField::IndexRegisterIndirect,
             "k" | "K"   => InstructionField::KeypadRegister,
-- 
2.43.0


From c8ded14a67ee134d27b229ef76a98113b13b9fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:16 +0000
Subject: [PATCH 4/5] fix: zero-pad immediates in disassembled instructions

'{:3x}' pads with spaces, so 0x1005 was rendered as 'jp $  5', which is not
valid assembly.
---
 src/assembler/opcode.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/assembler/opcode.rs b/src/assembler/opcode.rs
index bd696c8..0ffb94a 100644
--- a/src/assembler/opcode.rs
+++ b/src/assembler/opcode.rs
@@ -120,14 +120,14 @@ impl Opcode {
       Opcode::DEREF_I                                                 => { format!("ld i, [i]") }
       Opcode::TRAP                                                    => { format!("trap") }
       Opcode::TRAPRET                                                 => { format!("trapret") }
-      Opcode::JP              { target }                              => { format!("jp ${:3x}", u16::from(target)) }
-      Opcode::CALL            { target }                              => { format!("call ${:3x}", u16::from(target)) }
-      Opcode::SE_IMMEDIATE    { register_x: x, value }                => { format!("se v{:1x}, ${:2x}", x, value) }
-      Opcode::SNE_IMMEDIATE   { register_x: x, value }                => { format!("sne v{:1x}, ${:2x}", x, value) }
+      Opcode::JP              { target }                              => { format!("jp ${:03x}", u16::from(target)) }
+      Opcode::CALL            { target }                              => { format!("call ${:03x}", u16::from(target)) }
+      Opcode::SE_IMMEDIATE    { register_x: x, value }                => { format!("se v{:1x}, ${:02x}", x, value) }
+      Opcode::SNE_IMMEDIATE   { register_x: x, value }                => { format!("sne v{:1x}, ${:02x}", x, value) }
       Opcode::SE_REGISTER     { register_x: x, register_y: y }        => { format!("se v{:1x}, v{:1x}", x, y) }
       Opcode::SNE_REGISTER    { register_x: x, register_y: y }        => { format!("sne v{:1x}, v{:1x}", x, y) }
-      Opcode::LD_IMMEDIATE    { register_x: x, value }                => { format!("ld v{:1x}, ${:2x}", x, value) }
-      Opcode::ADD_IMMEDIATE   { register_x: x, value }                => { format!("add v{:1x}, ${:2x}", x, value) }
+      Opcode::LD_IMMEDIATE    { register_x: x, value }                => { format!("ld v{:1x}, ${:02x}", x, value) }
+      Opcode::ADD_IMMEDIATE   { register_x: x, value }                => { format!("add v{:1x}, ${:02x}", x, value) }
       Opcode::LD_REGISTER     { register_x: x, register_y: y }        => { format!("ld v{:1x}, v{:1x}", x, y) }
       Opcode::OR              { register_x: x, register_y: y }        => { format!("or v{:1x}, v{:1x}", x, y) }
       Opcode::AND             { register_x: x, register_y: y }        => { format!("and v{:1x}, v{:1x}", x, y) }
@@ -137,9 +137,9 @@ impl Opcode {
       Opcode::SHR             { register_x: x, register_y: _ }        => { format!("shr v{:1x}", x) }
       Opcode::SUBN            { register_x: x, register_y: y }        => { format!("subn v{:1x}, v{:1x}", x, y) }
       Opcode::SHL             { register_x: x, register_y: _ }        => { format!("shl v{:1x}", x) }
-      Opcode::LD_I            { value }                               => { format!("ld i, ${:3x}", u16::from(value)) }
-      Opcode::JP_V0           { value }                               => { format!("jp v0, ${:3x}", u16::from(value)) }
-      Opcode::RND             { register_x: x, mask }                 => { format!("rnd v{:1x}, ${:2x}", x, mask) }
+      Opcode::LD_I            { value }                               => { format!("ld i, ${:03x}", u16::from(value)) }
+      Opcode::JP_V0           { value }                               => { format!("jp v0, ${:03x}", u16::from(value)) }
+      Opcode::RND             { register_x: x, mask }                 => { format!("rnd v{:1x}, ${:02x}", x, mask) }
       Opcode::DRW             { register_x: x, register_y: y, bytes}  => { format!("drw v{:1x}, v{:1x}, ${:1x}", x, y, bytes) }
       Opcode::SE_K            { register_x: x }                       => { format!("skp v{:1x}", x) }
       Opcode::SNE_K           { register_x: x }                       => { format!("sknp v{:1x}", x) }
-- 
2.43.0


From 4e61952df62b244cf418659c6d402ecc06619998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:16 +0000
Subject: [PATCH 5/5] fix: parse operand lists iteratively

Each operand of a directive or instruction added a stack frame, so a line with
some ten thousand operands overflowed the stack and aborted the assembler
instead of being reported as an error.
---
 src/assembler/parser.rs | 74 +++++++++++++++++++++++------------------
 1 file changed, 42 insertions(+), 32 deletions(-)

diff --git a/src/assembler/parser.rs b/src/assembler/parser.rs
index fa2e59d..1f5f754 100644
--- a/src/assembler/parser.rs
+++ b/src/assembler/parser.rs
@@ -286,25 +286,25 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
    @return A list of literals if successful, or an error.
    */
   fn parse_literal_list(&mut self, list: Vec<Literal<'a>>) -> Result<Vec<Literal<'a>>, Error<'a>> {
-    
-    // The literal list is complete on Newline or Single-Line Comment.
-    match self.current_token {
-      Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(list),
-      _ => {}
-    }
-
-    // Parse the literal and append it to the list.
-    let literal = try!(self.parse_literal());
     let mut result_list = list;
-    result_list.push(literal);
 
-    // A comma following the literal causes the rule to recurse.
-    if let Some(Token::Comma(_)) = self.current_token {
-      let _ = self.consume_token();
-      return self.parse_literal_list(result_list);
-    }
+    loop {
+      // The literal list is complete on Newline or Single-Line Comment.
+      match self.current_token {
+        Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(result_list),
+        _ => {}
+      }
+
+      // Parse the literal and append it to the list.
+      let literal = try!(self.parse_literal());
+      result_list.push(literal);
 
-    return Ok(result_list);
+      // A comma following the literal continues the list.
+      match self.current_token {
+        Some(Token::Comma(_)) => { let _ = self.consume_token(); }
+        _ => return Ok(result_list)
+      }
+    }
   }
 
   /**
@@ -358,12 +358,33 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
    */
   fn parse_field_list(&mut self, list: Vec<InstructionField<'a>>) -> Result<Vec<InstructionField<'a>>, Error<'a>> {
 
-    // The field list is complete on Newline or Single-Line Comment.
-    match self.current_token {
-      Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(list),
-      _ => {}
+    let mut result_list = list;
+
+    loop {
+      // The field list is complete on Newline or Single-Line Comment.
+      match self.current_token {
+        Some(Token::Newline(_)) | Some(Token::SingleLineComment(_,_)) => return Ok(result_list),
+        _ => {}
+      }
+
+      // Parse the field and append it to the list.
+      let field = try!(self.parse_field());
+      result_list.push(field);
+
+      // A comma following the field continues the list.
+      match self.current_token {
+        Some(Token::Comma(_)) => { let _ = self.consume_token(); }
+        _ => return Ok(result_list)
+      }
     }
+  }
 
+  /**
+   Parses and consumes a single instruction field.
+   field ::= NUMERIC | IDENTIFIER
+   @return The field if successful, or an error.
+   */
+  fn parse_field(&mut self) -> Result<InstructionField<'a>, Error<'a>> {
     let field = match self.current_token {
 
       // A numeric literal parameter was matched.
@@ -416,18 +437,7 @@ impl<'a,I> Parser<'a,I> where I: Iterator<Item=Token<'a>> {
 
     };
 
-    // Append the parsed field to the list.
-    let mut result_list = list;
-    result_list.push(field);
-
-    // A comma following the field causes the rule to recurse.
-    if let Some(Token::Comma(_)) = self.current_token {
-      let _ = self.consume_token();
-      result_list = try!(self.parse_field_list(result_list));
-    }
-    
-    // Return the complete list.
-    Ok(result_list)
+    Ok(field)
   }
 
   /**
-- 
2.43.0

