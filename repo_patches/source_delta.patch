From 0915e095df6f400486b86afb7e7d1378c641f04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:15 +0000
Subject: [PATCH 01/93] fix: report a signature as valid-but-untrusted only
 after checking it cryptographically

---
 src/yapcad/package/signing.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index 0bda5de..ee32ddd 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -273,7 +273,8 @@ def _verify_gpg_signature(content: bytes, signature: str, keyring: Optional[Path
                         signer = line[start:end]
             return VerificationStatus.VALID, signer, None
         elif "Can't check signature: No public key" in stderr:
-            return VerificationStatus.VALID_UNTRUSTED, "unknown", "Public key not found"
+            # Without the public key nothing was checked cryptographically.
+            return VerificationStatus.ERROR, "unknown", "Public key not found"
         else:
             return VerificationStatus.INVALID, "unknown", stderr
             
@@ -317,17 +318,21 @@ def _verify_ssh_signature(
             
             if result.returncode == 0:
                 return VerificationStatus.VALID, "verified", None
-            else:
-                stderr = result.stderr.decode('utf-8')
-                if "Could not verify" in stderr:
-                    return VerificationStatus.INVALID, "unknown", stderr
-                else:
-                    return VerificationStatus.VALID_UNTRUSTED, "unknown", "Signer not in allowed_signers"
+            untrusted_reason = "Signer not in allowed_signers"
         else:
-            # Without allowed_signers, we can only check signature format validity
-            # This is a limitation - can't verify without knowing the public key
-            return VerificationStatus.VALID_UNTRUSTED, "unknown", "No allowed_signers file provided"
-            
+            untrusted_reason = "No allowed_signers file provided"
+
+        # Not verified against a trusted key: check the signature itself, using
+        # the public key embedded in it, before calling it valid-but-untrusted.
+        result = subprocess.run(
+            ["ssh-keygen", "-Y", "check-novalidate", "-n", namespace, "-s", sig_file],
+            input=content,
+            capture_output=True,
+        )
+        if result.returncode == 0:
+            return VerificationStatus.VALID_UNTRUSTED, "unknown", untrusted_reason
+        return VerificationStatus.INVALID, "unknown", result.stderr.decode('utf-8')
+
     except FileNotFoundError:
         return VerificationStatus.ERROR, "unknown", "ssh-keygen not found"
     finally:
-- 
2.43.0


From c76c34374d2038154a99ed691be2b8e003141e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:58 +0000
Subject: [PATCH 02/93] fix: pass --keyring to gpg before the file arguments so
 a custom keyring is honoured

---
 src/yapcad/package/signing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index ee32ddd..cca4a98 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -254,9 +254,11 @@ def _verify_gpg_signature(content: bytes, signature: str, keyring: Optional[Path
         sig_file = f.name
     
     try:
-        cmd = ["gpg", "--verify", sig_file, content_file]
+        cmd = ["gpg"]
         if keyring:
+            # gpg only accepts options before the file arguments
             cmd.extend(["--keyring", str(keyring)])
+        cmd.extend(["--verify", sig_file, content_file])
         
         result = subprocess.run(cmd, capture_output=True)
         stderr = result.stderr.decode('utf-8')
-- 
2.43.0


From 7ebe8a376d242d2c6e946a2f2232821733af774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 03/93] fix: validate manifest hashes with the algorithm they
 were recorded with

---
 src/yapcad/package/validator.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/validator.py b/src/yapcad/package/validator.py
index 5d09164..73d8fc9 100644
--- a/src/yapcad/package/validator.py
+++ b/src/yapcad/package/validator.py
@@ -18,7 +18,14 @@ def _check_file(path: Path, expected_hash: str | None) -> Tuple[bool, List[str]]
     if not path.exists():
         messages.append(f"ERROR: missing file {path}")
         return False, messages
-    actual_hash = _compute_hash(path)
+    algorithm = "sha256"
+    if expected_hash and ":" in expected_hash:
+        algorithm = expected_hash.split(":", 1)[0].lower()
+    try:
+        actual_hash = _compute_hash(path, algorithm)
+    except ValueError:
+        messages.append(f"ERROR: unsupported hash algorithm '{algorithm}' for {path}")
+        return False, messages
     if expected_hash and expected_hash.lower() != actual_hash.lower():
         messages.append(
             f"ERROR: hash mismatch for {path} (expected {expected_hash}, got {actual_hash})"
-- 
2.43.0


From 8a2df474250e79556f9c30c8b5987b9729f57b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 04/93] fix: report a manifest entry without a path instead of
 raising KeyError

---
 src/yapcad/package/validator.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/yapcad/package/validator.py b/src/yapcad/package/validator.py
index 73d8fc9..7a438d0 100644
--- a/src/yapcad/package/validator.py
+++ b/src/yapcad/package/validator.py
@@ -148,6 +148,10 @@ def validate_package(path: Path | str, *, strict: bool = False) -> Tuple[bool, L
     # Derived geometry
     derived_entries = data.get("geometry", {}).get("derived", []) or []
     for entry in derived_entries:
+        if not entry.get("path"):
+            messages.append("ERROR: geometry.derived entry missing path")
+            overall_ok = False
+            continue
         derived_path = manifest.root / entry["path"]
         ok_entry, msgs = _check_file(derived_path, entry.get("hash"))
         messages.extend(msgs)
@@ -156,6 +160,10 @@ def validate_package(path: Path | str, *, strict: bool = False) -> Tuple[bool, L
     # Exports and attachments
     for section in ("exports", "attachments"):
         for entry in data.get(section, []) or []:
+            if not entry.get("path"):
+                messages.append(f"ERROR: {section} entry {entry.get('id')} missing path")
+                overall_ok = False
+                continue
             file_path = manifest.root / entry["path"]
             ok_entry, msgs = _check_file(file_path, entry.get("hash"))
             messages.extend(msgs)
-- 
2.43.0


From f70be2c699c382d462cec70fb3265aacaa4aaf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 05/93] fix: a failed require in a called command or default
 expression fails the run

---
 src/yapcad/dsl/runtime/interpreter.py | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 3deb662..542bec9 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -159,7 +159,8 @@ class Interpreter:
             )
 
         # Wrap parameters as Values
-        wrapped_params = self._wrap_parameters(command, parameters)
+        default_failures: List[RequireFailure] = []
+        wrapped_params = self._wrap_parameters(command, parameters, default_failures)
 
         # Create execution context
         ctx = create_context(
@@ -168,6 +169,7 @@ class Interpreter:
             parameters=wrapped_params,
             source=source,
         )
+        ctx.require_failures.extend(default_failures)
 
         # Execute the command body
         try:
@@ -218,8 +220,17 @@ class Interpreter:
             provenance=provenance,
         )
 
-    def _wrap_parameters(self, command: Command, parameters: Dict[str, Any]) -> Dict[str, Value]:
-        """Wrap raw parameter values as DSL Values."""
+    def _wrap_parameters(
+        self,
+        command: Command,
+        parameters: Dict[str, Any],
+        require_failures: Optional[List[RequireFailure]] = None,
+    ) -> Dict[str, Value]:
+        """Wrap raw parameter values as DSL Values.
+
+        ``require`` failures raised by commands called from default value
+        expressions are appended to *require_failures*.
+        """
         wrapped = {}
 
         # Create a temporary context for evaluating default values
@@ -249,6 +260,8 @@ class Interpreter:
                 # Evaluate default value expression using temporary context
                 default_val = self._evaluate(param.default_value, temp_ctx)
                 wrapped[param.name] = default_val
+        if require_failures is not None:
+            require_failures.extend(temp_ctx.require_failures)
         return wrapped
 
     def _execute_command(self, command: Command, ctx: ExecutionContext) -> None:
@@ -735,8 +748,12 @@ class Interpreter:
             module_name = self.current_module.name if self.current_module else "unknown"
             cmd_ctx = create_context(module_name, command.name, param_dict, "")
 
-            # Execute the command body
-            self._execute_command(command, cmd_ctx)
+            # Execute the command body; a violated `require` in a called
+            # command fails the calling command as well
+            try:
+                self._execute_command(command, cmd_ctx)
+            finally:
+                parent_ctx.require_failures.extend(cmd_ctx.require_failures)
 
             # Apply @meta(...) hint to the emitted solid before returning
             # so the value seen by the caller (e.g. add_part(...)) carries
-- 
2.43.0


From 633fd47eb33cb2ae56610a34dbc8d3b0226c0429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 06/93] fix: emit ends the command as documented

---
 src/yapcad/dsl/runtime/interpreter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 542bec9..ec2da1c 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -362,6 +362,8 @@ class Interpreter:
                 for key, expr in stmt.metadata.items():
                     metadata[key] = self._evaluate(expr, ctx).data
         ctx.set_emit(value, metadata)
+        # ``emit`` returns from the command (documented early-return form)
+        ctx.signal_return(value)
 
     def _execute_for(self, stmt: ForStatement, ctx: ExecutionContext) -> None:
         """Execute a for loop."""
-- 
2.43.0


From 35ffcdc7cc001a89e1d8a00673cb7c4bf34421d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 07/93] fix: report every runtime exception of a DSL command as
 a failed result

---
 src/yapcad/dsl/runtime/interpreter.py | 29 ++++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index ec2da1c..9c6873a 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -160,7 +160,14 @@ class Interpreter:
 
         # Wrap parameters as Values
         default_failures: List[RequireFailure] = []
-        wrapped_params = self._wrap_parameters(command, parameters, default_failures)
+        try:
+            wrapped_params = self._wrap_parameters(command, parameters, default_failures)
+        except Exception as e:
+            return ExecutionResult(
+                success=False,
+                error_message=f"Invalid parameters for command '{command_name}': {e}",
+                require_failures=default_failures,
+            )
 
         # Create execution context
         ctx = create_context(
@@ -171,24 +178,22 @@ class Interpreter:
         )
         ctx.require_failures.extend(default_failures)
 
-        # Execute the command body
+        # Execute the command body, then apply the @meta(...) hint to the
+        # emitted solid (Phase 1c bridge). The parser already merges all
+        # @meta decorators into ``command.meta_hint`` (a flat dict).
+        # meta_apply.apply_meta_hint dispatches each key to the right
+        # ``yapcad.metadata`` helper, which is what downstream consumers
+        # (add_part datum lifting, mechatron_export) read.
         try:
             self._execute_command(command, ctx)
-        except RuntimeError as e:
+            self._apply_command_meta_hint(command, ctx)
+        except Exception as e:
             return ExecutionResult(
                 success=False,
-                error_message=str(e),
+                error_message=str(e) or type(e).__name__,
                 require_failures=ctx.require_failures,
             )
 
-        # Apply @meta(...) hint to the emitted solid (Phase 1c bridge).
-        # The parser already merges all @meta decorators into
-        # ``command.meta_hint`` (a flat dict). meta_apply.apply_meta_hint
-        # dispatches each key to the right ``yapcad.metadata`` helper,
-        # which is what downstream consumers (add_part datum lifting,
-        # mechatron_export) read.
-        self._apply_command_meta_hint(command, ctx)
-
         # Build provenance
         provenance = create_provenance(
             module_name=module.name,
-- 
2.43.0


From 3ddfd74e5a9c14ac2f9a7598e9b11a5d3b9757a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 08/93] fix: assignment to an undefined DSL variable fails the
 run

---
 src/yapcad/dsl/runtime/interpreter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 9c6873a..ab942c6 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -344,7 +344,7 @@ class Interpreter:
         """Execute an assignment statement."""
         value = self._evaluate(stmt.value, ctx)
         if not ctx.update_variable(stmt.target.name, value):
-            ctx.add_error(f"Cannot assign to undefined variable '{stmt.target.name}'", stmt.span)
+            raise RuntimeError(f"Cannot assign to undefined variable '{stmt.target.name}'")
 
     def _execute_require(self, stmt: RequireStatement, ctx: ExecutionContext) -> None:
         """Execute a require statement."""
-- 
2.43.0


From 4f02cb8667721cb513f1101a1a533075baaf1270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 09/93] fix: evaluate the message of a failed require

---
 src/yapcad/dsl/runtime/interpreter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index ab942c6..88b6149 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -350,7 +350,11 @@ class Interpreter:
         """Execute a require statement."""
         condition = self._evaluate(stmt.condition, ctx)
         if not condition.is_truthy():
-            message = stmt.message if stmt.message else "Constraint violated"
+            message = "Constraint violated"
+            if stmt.message is not None:
+                message = stmt.message
+                if isinstance(message, Expression):
+                    message = str(self._evaluate(message, ctx).data)
             ctx.add_require_failure(message)
 
     def _execute_emit(self, stmt: EmitStatement, ctx: ExecutionContext) -> None:
-- 
2.43.0


From 2026f0edefaa8a269e733ca3a72885ef0397086a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:52 +0000
Subject: [PATCH 10/93] fix: do not evaluate the right operand a logical
 operator skips

---
 src/yapcad/dsl/runtime/interpreter.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 88b6149..3e2d17e 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -590,17 +590,19 @@ class Interpreter:
     def _eval_binary_op(self, op: BinaryOp, ctx: ExecutionContext) -> Value:
         """Evaluate a binary operation."""
         left = self._evaluate(op.left, ctx)
-        right = self._evaluate(op.right, ctx)
 
-        # Short-circuit for logical operators
+        # Short-circuit for logical operators: the right operand is only
+        # evaluated when it decides the result
         if op.operator == TokenType.AND:
             if not left.is_truthy():
                 return bool_val(False)
-            return bool_val(right.is_truthy())
+            return bool_val(self._evaluate(op.right, ctx).is_truthy())
         elif op.operator == TokenType.OR:
             if left.is_truthy():
                 return bool_val(True)
-            return bool_val(right.is_truthy())
+            return bool_val(self._evaluate(op.right, ctx).is_truthy())
+
+        right = self._evaluate(op.right, ctx)
 
         # Arithmetic operators
         if op.operator == TokenType.PLUS:
-- 
2.43.0


From d405367ca2aeba5eb959428bf2158b03ea13ad91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 11/93] fix: bind named call arguments instead of dropping them

---
 src/yapcad/dsl/parser.py              |  5 +-
 src/yapcad/dsl/runtime/interpreter.py | 92 +++++++++++++++++++++------
 2 files changed, 77 insertions(+), 20 deletions(-)

diff --git a/src/yapcad/dsl/parser.py b/src/yapcad/dsl/parser.py
index 457c7da..4f17307 100644
--- a/src/yapcad/dsl/parser.py
+++ b/src/yapcad/dsl/parser.py
@@ -396,7 +396,10 @@ class Parser:
         # Check for named argument: name=value
         if (self._check(TokenType.IDENTIFIER) and
             self._peek(1).type == TokenType.ASSIGN):
-            name = self._advance().value
+            name = self._current().value
+            if name in named_args:
+                self._error(f"an argument other than '{name}' (already given)")
+            self._advance()
             self._advance()  # consume '='
             value = self._parse_expression()
             named_args[name] = value
diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 3e2d17e..68d65a8 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -42,6 +42,7 @@ from ..types import (
     Type, ListType, DictType, resolve_type_name,
     INT, FLOAT, BOOL, STRING,
 )
+from ..symbols import SymbolTable
 from ..tokens import SourceSpan, TokenType
 
 
@@ -689,35 +690,79 @@ class Interpreter:
         else:
             raise RuntimeError(f"Unsupported callee type: {type(call.callee).__name__}")
 
+        named = {
+            name: self._evaluate(value, ctx)
+            for name, value in call.named_arguments.items()
+        }
+
         # Check for native function first
         if func_name in self.native_functions:
-            return self._call_native_function(func_name, args)
+            return self._call_native_function(func_name, args, named)
 
         # Check for commands in the current module
         if self.current_module is not None:
             for cmd in self.current_module.commands:
                 if cmd.name == func_name:
-                    # Resolve named_arguments into positional order if present
-                    named = getattr(call, 'named_arguments', {})
-                    if named and not args:
-                        # Build positional arg list from named_arguments
-                        # matching command parameter order
-                        resolved = []
-                        for param in cmd.parameters:
-                            if param.name in named:
-                                resolved.append(self._evaluate(named[param.name], ctx))
-                            elif param.default_value is not None:
-                                resolved.append(self._evaluate(param.default_value, ctx))
-                            else:
-                                raise RuntimeError(
-                                    f"Command '{func_name}' missing required argument '{param.name}'"
-                                )
-                        args = resolved
+                    # Resolve named arguments into positional order if present
+                    if named:
+                        args = self._bind_named_arguments(
+                            f"Command '{func_name}'",
+                            [param.name for param in cmd.parameters],
+                            args,
+                            named,
+                            {
+                                param.name: param.default_value
+                                for param in cmd.parameters
+                                if param.default_value is not None
+                            },
+                            ctx,
+                        )
                     return self._call_command(cmd, args, ctx)
 
         # Call the built-in function
+        if named:
+            signature = SymbolTable().lookup_builtin(func_name)
+            args = self._bind_named_arguments(
+                f"Function '{func_name}'",
+                [param[0] for param in signature.params] if signature else [],
+                args,
+                named,
+                {},
+                ctx,
+            )
         return call_builtin(func_name, args)
 
+    def _bind_named_arguments(
+        self,
+        target: str,
+        param_names: List[str],
+        args: List[Value],
+        named: Dict[str, Value],
+        defaults: Dict[str, Expression],
+        ctx: ExecutionContext,
+    ) -> List[Value]:
+        """Place named arguments after the positional ones in parameter order.
+
+        Every named argument is used exactly once; an unknown, repeated or
+        unplaceable name is an error rather than being ignored.
+        """
+        for name in named:
+            if name not in param_names:
+                raise RuntimeError(f"{target} has no parameter '{name}'")
+            if name in param_names[:len(args)]:
+                raise RuntimeError(f"{target} got multiple values for argument '{name}'")
+
+        bound = list(args)
+        last = max(param_names.index(name) for name in named)
+        for name in param_names[len(args):last + 1]:
+            if name in named:
+                bound.append(named[name])
+            elif name in defaults:
+                bound.append(self._evaluate(defaults[name], ctx))
+            else:
+                raise RuntimeError(f"{target} missing required argument '{name}'")
+        return bound
+
     def _call_command(self, command: Command, args: List[Value], parent_ctx: ExecutionContext) -> Value:
         """Call a command as a function from within another command."""
         # Check recursion depth limit
@@ -781,15 +826,21 @@ class Interpreter:
         finally:
             self.call_depth -= 1
 
-    def _call_native_function(self, func_name: str, args: List[Value]) -> Value:
+    def _call_native_function(
+        self,
+        func_name: str,
+        args: List[Value],
+        named: Optional[Dict[str, Value]] = None,
+    ) -> Value:
         """Call a native function with the given arguments."""
         func = self.native_functions[func_name]
 
         # Unwrap Value objects to raw Python values
         raw_args = [arg.data for arg in args]
+        raw_named = {name: arg.data for name, arg in (named or {}).items()}
 
         try:
-            result = func(*raw_args)
+            result = func(*raw_args, **raw_named)
         except Exception as e:
             raise RuntimeError(f"Error calling native function '{func_name}': {e}")
 
@@ -818,6 +869,9 @@ class Interpreter:
 
     def _eval_method_call(self, call: MethodCall, ctx: ExecutionContext) -> Value:
         """Evaluate a method call."""
+        if call.named_arguments:
+            raise RuntimeError(f"Method '{call.method}' does not accept named arguments")
+
         receiver = self._evaluate(call.object, ctx)
         args = [self._evaluate(arg, ctx) for arg in call.arguments]
 
-- 
2.43.0


From 086d12423ae36feccdd19fe8ed58f208004d9e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 12/93] fix: reject unknown and missing parameters of a run
 instead of ignoring them

---
 src/yapcad/dsl/runtime/interpreter.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 68d65a8..ae03a15 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -243,6 +243,11 @@ class Interpreter:
         from .context import ExecutionContext
         temp_ctx = ExecutionContext()
 
+        known = {param.name for param in command.parameters}
+        for name in parameters:
+            if name not in known:
+                raise RuntimeError(f"Command '{command.name}' has no parameter '{name}'")
+
         for param in command.parameters:
             if param.name in parameters:
                 raw_value = parameters[param.name]
@@ -266,6 +271,10 @@ class Interpreter:
                 # Evaluate default value expression using temporary context
                 default_val = self._evaluate(param.default_value, temp_ctx)
                 wrapped[param.name] = default_val
+            else:
+                raise RuntimeError(
+                    f"Command '{command.name}' missing required argument '{param.name}'"
+                )
         if require_failures is not None:
             require_failures.extend(temp_ctx.require_failures)
         return wrapped
-- 
2.43.0


From deb88cf67cf021f2f46505ce7bbd9ce377246a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 13/93] fix: type-check named arguments of command and method
 calls

---
 src/yapcad/dsl/checker.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 2584f2f..0706c40 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -800,6 +800,8 @@ class TypeChecker:
                                     arg.span,
                                     "E274"
                                 )
+                for arg in expr.named_arguments.values():
+                    self._check_expression(arg)
                 return func_type.return_type
             return UNKNOWN
 
@@ -961,6 +963,9 @@ class TypeChecker:
                             "E281"
                         )
 
+        for arg in expr.named_arguments.values():
+            self._check_expression(arg)
+
         return method_sig.return_type
 
     def _check_member_access(self, expr: MemberAccess) -> Type:
-- 
2.43.0


From b3d168bd2f9a6884e11072293b54800c4402e2a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:56 +0000
Subject: [PATCH 14/93] fix: the checker resolves calls in the order the
 interpreter does

---
 src/yapcad/dsl/checker.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 0706c40..718ee78 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -762,14 +762,21 @@ class TypeChecker:
             callee_type = self._check_expression(expr.callee)
             return UNKNOWN
 
+        # User-defined commands and native functions take precedence over
+        # built-ins of the same name, as they do at run time
+        symbol = self.symbols.lookup(callee_name)
+        user_defined = symbol is not None and symbol.kind in (
+            SymbolKind.COMMAND, SymbolKind.FUNCTION
+        )
+
         # Check for built-in function
         builtin = self.symbols.lookup_builtin(callee_name)
-        if builtin is not None:
+        if builtin is not None and not user_defined:
             return self._check_builtin_call(builtin, expr)
 
         # Check for type constructor
         type_val = resolve_type_name(callee_name)
-        if type_val is not None:
+        if type_val is not None and not user_defined:
             # Type constructor - check argument count loosely
             for arg in expr.arguments:
                 self._check_expression(arg)
@@ -778,8 +785,7 @@ class TypeChecker:
             return type_val
 
         # Check for user-defined command or native function
-        symbol = self.symbols.lookup(callee_name)
-        if symbol is not None and symbol.kind in (SymbolKind.COMMAND, SymbolKind.FUNCTION):
+        if user_defined:
             # Track command-to-command calls for recursion detection
             if (callee_name in self._command_names and
                 self._current_command is not None and
-- 
2.43.0


From f8f7e9fb4ca36c69027d16b17600447693087246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 15/93] fix: check return statements and declarations without a
 value instead of crashing

---
 src/yapcad/dsl/checker.py             | 16 +++++++---------
 src/yapcad/dsl/runtime/interpreter.py | 10 +++++++++-
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 718ee78..bb40569 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -376,11 +376,13 @@ class TypeChecker:
 
     def _check_let_statement(self, stmt: LetStatement) -> None:
         """Check a let statement."""
-        init_type = self._check_expression(stmt.initializer)
+        init_type = None
+        if stmt.initializer is not None:
+            init_type = self._check_expression(stmt.initializer)
 
         if stmt.type_annotation is not None:
             declared_type = self._resolve_type_node(stmt.type_annotation)
-            if not declared_type.is_assignable_from(init_type):
+            if init_type is not None and not declared_type.is_assignable_from(init_type):
                 self._error(
                     f"Cannot assign '{init_type}' to variable of type '{declared_type}'",
                     stmt.initializer.span,
@@ -538,13 +540,9 @@ class TypeChecker:
             self.symbols.pop_scope()
 
     def _check_return_statement(self, stmt: ReturnStatement) -> None:
-        """Check a return statement (for Python blocks)."""
-        value_type = self._check_expression(stmt.value)
-        declared_type = self._resolve_type_node(stmt.return_type)
-
-        # The declared type is the bridge type - we trust the user's annotation
-        # but flag it as requiring review
-        self._has_python_blocks = True
+        """Check a return statement."""
+        if stmt.value is not None:
+            self._check_expression(stmt.value)
 
     def _check_python_block(self, stmt: PythonBlock) -> None:
         """Check a Python block (just flag it for review)."""
diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index ae03a15..103b9a8 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -347,6 +347,8 @@ class Interpreter:
 
     def _execute_let(self, stmt: LetStatement, ctx: ExecutionContext) -> None:
         """Execute a let statement."""
+        if stmt.initializer is None:
+            return  # declared without a value: reading it is an error
         value = self._evaluate(stmt.initializer, ctx)
         ctx.set_variable(stmt.name, value)
 
@@ -1203,7 +1205,13 @@ def compile_and_run(
         )
 
     # Type check
-    check_result = check(module)
+    try:
+        check_result = check(module)
+    except Exception as e:
+        return ExecutionResult(
+            success=False,
+            error_message=f"Type checker error: {e}",
+        )
     if check_result.has_errors:
         error_msgs = [str(d) for d in check_result.diagnostics if d.severity.name == 'ERROR']
         return ExecutionResult(
-- 
2.43.0


From f92617baa0b596d72fba873752f1d7246a039d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:59 +0000
Subject: [PATCH 16/93] fix: execute the expression statement that ends a block

---
 src/yapcad/dsl/runtime/interpreter.py | 43 +++++++++++++--------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 103b9a8..ea65646 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -281,10 +281,22 @@ class Interpreter:
 
     def _execute_command(self, command: Command, ctx: ExecutionContext) -> None:
         """Execute a command's body statements."""
-        for stmt in command.body.statements:
+        self._execute_body(command.body, ctx)
+
+    def _execute_body(self, block: Block, ctx: ExecutionContext) -> Optional[Value]:
+        """Execute a block's statements in the current scope.
+
+        The parser keeps a trailing expression statement separately, as the
+        block's final expression; it is executed like any other statement and
+        its value returned (for blocks used as expressions).
+        """
+        for stmt in block.statements:
             self._execute_statement(stmt, ctx)
             if ctx.should_return:
-                break
+                return None
+        if block.final_expression is not None:
+            return self._evaluate(block.final_expression, ctx)
+        return None
 
     def _apply_command_meta_hint(self, command: Command, ctx: ExecutionContext) -> None:
         """Apply a command's merged ``@meta(...)`` hint to its emitted solid.
@@ -407,10 +419,9 @@ class Interpreter:
         with ctx.new_scope("for-loop"):
             for item in items:
                 ctx.set_variable(stmt.variable, wrap_value(item, elem_type))
-                for body_stmt in stmt.body.statements:
-                    self._execute_statement(body_stmt, ctx)
-                    if ctx.should_return:
-                        return
+                self._execute_body(stmt.body, ctx)
+                if ctx.should_return:
+                    return
 
     # NOTE: _execute_while removed - while loops not supported for static verifiability
 
@@ -421,10 +432,7 @@ class Interpreter:
         if condition.is_truthy():
             # Execute then branch
             with ctx.new_scope("if-then"):
-                for body_stmt in stmt.then_branch.statements:
-                    self._execute_statement(body_stmt, ctx)
-                    if ctx.should_return:
-                        return
+                self._execute_body(stmt.then_branch, ctx)
         else:
             # Check elif branches
             executed = False
@@ -432,20 +440,14 @@ class Interpreter:
                 elif_cond = self._evaluate(elif_branch.condition, ctx)
                 if elif_cond.is_truthy():
                     with ctx.new_scope("elif"):
-                        for body_stmt in elif_branch.body.statements:
-                            self._execute_statement(body_stmt, ctx)
-                            if ctx.should_return:
-                                return
+                        self._execute_body(elif_branch.body, ctx)
                     executed = True
                     break
 
             # Execute else branch if no elif matched
             if not executed and stmt.else_branch is not None:
                 with ctx.new_scope("else"):
-                    for body_stmt in stmt.else_branch.statements:
-                        self._execute_statement(body_stmt, ctx)
-                        if ctx.should_return:
-                            return
+                    self._execute_body(stmt.else_branch, ctx)
 
     def _execute_return(self, stmt: ReturnStatement, ctx: ExecutionContext) -> None:
         """Execute a return statement."""
@@ -458,10 +460,7 @@ class Interpreter:
     def _execute_block(self, block: Block, ctx: ExecutionContext) -> None:
         """Execute a block of statements."""
         with ctx.new_scope("block"):
-            for stmt in block.statements:
-                self._execute_statement(stmt, ctx)
-                if ctx.should_return:
-                    break
+            self._execute_body(block, ctx)
 
     def _execute_python_block(self, block: PythonBlock, ctx: ExecutionContext) -> None:
         """Execute an embedded Python block."""
-- 
2.43.0


From 863121a3a0e1815edd7ab0febf5c1f39d82bc52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 17/93] fix: evaluate if expressions, whose branches are blocks

---
 src/yapcad/dsl/checker.py             | 17 +++++++++++++++++
 src/yapcad/dsl/runtime/interpreter.py | 15 ++++++++++++---
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index bb40569..bd84123 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -1142,11 +1142,28 @@ class TypeChecker:
                 "E297"
             )
 
+        self.symbols.push_scope("if then")
         then_type = self._check_block(expr.then_branch)
+        self.symbols.pop_scope()
+
+        for elif_branch in expr.elif_branches:
+            elif_cond_type = self._check_expression(elif_branch.condition)
+            if elif_cond_type != BOOL and elif_cond_type != ERROR:
+                self._error(
+                    f"Elif condition must be boolean, got '{elif_cond_type}'",
+                    elif_branch.condition.span,
+                    "E227"
+                )
+            self.symbols.push_scope("elif")
+            elif_type = self._check_block(elif_branch.body)
+            self.symbols.pop_scope()
+            then_type = then_type or elif_type
 
         if expr.else_branch is not None:
             if isinstance(expr.else_branch, Block):
+                self.symbols.push_scope("else")
                 else_type = self._check_block(expr.else_branch)
+                self.symbols.pop_scope()
             else:  # IfExpr (else if)
                 else_type = self._check_if_expr(expr.else_branch)
 
diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index ea65646..d02e5d7 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -1060,12 +1060,21 @@ class Interpreter:
         """Evaluate an if expression."""
         condition = self._evaluate(if_expr.condition, ctx)
         if condition.is_truthy():
-            return self._evaluate(if_expr.then_branch, ctx)
-        elif if_expr.else_branch:
-            return self._evaluate(if_expr.else_branch, ctx)
+            return self._eval_branch(if_expr.then_branch, ctx)
+        for elif_branch in if_expr.elif_branches:
+            if self._evaluate(elif_branch.condition, ctx).is_truthy():
+                return self._eval_branch(elif_branch.body, ctx)
+        if if_expr.else_branch:
+            return self._eval_branch(if_expr.else_branch, ctx)
         else:
             return none_val(INT)
 
+    def _eval_branch(self, block: Block, ctx: ExecutionContext) -> Value:
+        """Evaluate a block used as an expression."""
+        with ctx.new_scope("if-expr"):
+            value = self._execute_body(block, ctx)
+        return value if value is not None else none_val(INT)
+
     def _eval_match_expr(self, match: MatchExpr, ctx: ExecutionContext) -> Value:
         """Evaluate a match expression."""
         subject = self._evaluate(match.subject, ctx)
-- 
2.43.0


From 97ed2ced5ba6adcb88b997593f72a462189b366b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:02 +0000
Subject: [PATCH 18/93] fix: Python code sees the innermost binding of a
 shadowed DSL variable

---
 src/yapcad/dsl/runtime/interpreter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index d02e5d7..d6f8ae7 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -469,7 +469,7 @@ class Interpreter:
         scope = ctx.current_scope
         while scope:
             for name, value in scope.variables.items():
-                namespace[name] = value.data
+                namespace.setdefault(name, value.data)  # inner scopes win
             scope = scope.parent
 
         # Add yapCAD imports
@@ -1123,7 +1123,7 @@ class Interpreter:
         scope = ctx.current_scope
         while scope:
             for name, value in scope.variables.items():
-                namespace[name] = value.data
+                namespace.setdefault(name, value.data)  # inner scopes win
             scope = scope.parent
 
         # Evaluate the expression
-- 
2.43.0


From 54109da9ad2b5ee51bed4e002cae3a9ca9cd8725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 19/93] fix: a native function returning a bool gives a bool,
 not 0.0 or 1.0

---
 src/yapcad/dsl/runtime/interpreter.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index d6f8ae7..68a6365 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -865,10 +865,11 @@ class Interpreter:
             pass
 
         # Default to FLOAT for numeric, or wrap as-is
-        if isinstance(result, (int, float)):
-            return float_val(float(result))
-        elif isinstance(result, bool):
+        # (bool is a subclass of int, so it has to be tested first)
+        if isinstance(result, bool):
             return bool_val(result)
+        elif isinstance(result, (int, float)):
+            return float_val(float(result))
         elif isinstance(result, str):
             return string_val(result)
         elif isinstance(result, list):
-- 
2.43.0


From 57e915d1192f1190613e37451148b0403ee586ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:07 +0000
Subject: [PATCH 20/93] fix: the checker requires the spacing argument
 text_solid needs

text_solid was registered twice; the later, three-argument entry replaced
the documented one, so calls the runtime cannot execute passed the check.
---
 src/yapcad/dsl/symbols.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/yapcad/dsl/symbols.py b/src/yapcad/dsl/symbols.py
index f5d9124..2fabe54 100644
--- a/src/yapcad/dsl/symbols.py
+++ b/src/yapcad/dsl/symbols.py
@@ -557,12 +557,6 @@ class SymbolTable:
         ], SOLID)
 
         # Text solid generation - 3D extruded text
-        self._register_builtin("text_solid", [
-            ("text", STRING, None),           # Text string to render
-            ("height", FLOAT, None),          # Character height in mm
-            ("depth", FLOAT, None),           # Extrusion depth in mm
-        ], SOLID)
-
         self._register_builtin("text_solid_fitted", [
             ("text", STRING, None),           # Text string to render
             ("max_width", FLOAT, None),       # Maximum width in mm (auto-scales height)
-- 
2.43.0


From 0bce56a5362d59e4029ccd8f427bd11350d10c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:19 +0000
Subject: [PATCH 21/93] fix: declare the edge selection builtins to the checker

README documents select_*_edges, union_edges, fillet_edges, ... as DSL
builtins and the runtime implements them, but the checker rejected them.
---
 src/yapcad/dsl/symbols.py | 55 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 54 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/symbols.py b/src/yapcad/dsl/symbols.py
index 2fabe54..6690211 100644
--- a/src/yapcad/dsl/symbols.py
+++ b/src/yapcad/dsl/symbols.py
@@ -16,7 +16,7 @@ from .types import (
     LINE_SEGMENT, ARC, CIRCLE, ELLIPSE, PARABOLA, HYPERBOLA,
     CATMULLROM, NURBS, BEZIER,
     PATH2D, PATH3D, PROFILE2D, REGION2D, LOOP3D,
-    SURFACE, SHELL, SOLID, DICT, ASSEMBLY,
+    SURFACE, SHELL, SOLID, EDGE, DICT, ASSEMBLY,
     make_list_type, make_optional_type,
 )
 from .tokens import SourceSpan
@@ -620,6 +620,59 @@ class SymbolTable:
             ("distance", FLOAT, None),
         ], SOLID)
 
+        # Edge selection (BREP edges) and selective edge treatment
+        edges = make_list_type(EDGE)
+        for name in ("select_vertical_edges", "select_horizontal_edges"):
+            self._register_builtin(name, [
+                ("s", SOLID, None),
+                ("tolerance_deg", FLOAT, "optional"),
+            ], edges)
+        self._register_builtin("select_edges_by_direction", [
+            ("s", SOLID, None),
+            ("direction", VECTOR3D, None),
+            ("tolerance_deg", FLOAT, "optional"),
+        ], edges)
+        self._register_builtin("select_edges_by_length", [
+            ("s", SOLID, None),
+            ("min_length", FLOAT, "optional"),
+            ("max_length", FLOAT, "optional"),
+        ], edges)
+        self._register_builtin("select_edges_at_z", [
+            ("s", SOLID, None),
+            ("z_value", FLOAT, None),
+            ("tolerance", FLOAT, "optional"),
+        ], edges)
+        self._register_builtin("select_edges_in_z_range", [
+            ("s", SOLID, None),
+            ("z_min", FLOAT, None),
+            ("z_max", FLOAT, None),
+            ("tolerance", FLOAT, "optional"),
+        ], edges)
+        for name in ("select_top_edges", "select_bottom_edges"):
+            self._register_builtin(name, [
+                ("s", SOLID, None),
+                ("tolerance", FLOAT, "optional"),
+            ], edges)
+        for name in ("union_edges", "intersect_edges"):
+            self._register_builtin(name, [
+                ("edges1", edges, None),
+                ("edges2", edges, None),
+            ], edges)
+        self._register_builtin("subtract_edges", [
+            ("base_edges", edges, None),
+            ("to_remove", edges, None),
+        ], edges)
+        self._register_builtin("fillet_edges", [
+            ("s", SOLID, None),
+            ("edges", edges, None),
+            ("radius", FLOAT, None),
+        ], SOLID)
+        self._register_builtin("chamfer_edges", [
+            ("s", SOLID, None),
+            ("edges", edges, None),
+            ("distance", FLOAT, None),
+        ], SOLID)
+
         # Pattern operations
         self._register_builtin("radial_pattern", [
             ("shape", UNKNOWN, None),  # Any geometry
-- 
2.43.0


From 6108f592f0750d7e2447fe4314f30d4fee29e762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:19 +0000
Subject: [PATCH 22/93] fix: type-check named arguments of builtin calls

---
 src/yapcad/dsl/checker.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index bd84123..2dc7a5a 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -845,15 +845,23 @@ class TypeChecker:
                         )
 
         # Check named arguments
-        param_names = {p[0] for p in sig.params}
+        param_types = {p[0]: p[1] for p in sig.params}
         for name, arg in expr.named_arguments.items():
             arg_type = self._check_expression(arg)
-            if name not in param_names:
+            if name not in param_types:
                 self._error(
                     f"Unknown parameter '{name}' for function '{sig.name}'",
                     arg.span,
                     "E273"
                 )
+            elif param_types[name] != UNKNOWN and arg_type != ERROR \
+                    and not param_types[name].is_assignable_from(arg_type):
+                self._error(
+                    f"Argument '{name}' expects '{param_types[name]}', "
+                    f"got '{arg_type}'",
+                    arg.span,
+                    "E272"
+                )
 
         # Infer return type for list functions based on argument types
         return_type = sig.return_type
-- 
2.43.0


From 9742c16478e1ef972edaeb543f1e0a215449c4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:21 +0000
Subject: [PATCH 23/93] fix: apply_vector gives a vector

Points and vectors share a representation, so a vector matched the point
test first and came back as point3d although vector3d is declared.
---
 src/yapcad/dsl/runtime/builtins.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 972b13f..9302064 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -524,11 +524,17 @@ class BuiltinRegistry:
                 return surface_val(result)
 
             # Handle points/vectors - use matrix multiplication directly
+            # (points and vectors share a representation, so ask for the
+            # declared vector types before looking at the data)
+            elif shape_type in (VECTOR, VECTOR2D, VECTOR3D):
+                result = mat.mul(data)
+                return vector_val(result)
+
             elif shape_type in (POINT, POINT2D, POINT3D) or ispoint(data):
                 result = mat.mul(data)
                 return point_val(result)
 
-            elif shape_type in (VECTOR, VECTOR2D, VECTOR3D) or isvect(data):
+            elif isvect(data):
                 result = mat.mul(data)
                 return vector_val(result)
 
-- 
2.43.0


From 9aa733aa2202da79654d9ccf69ae5c90b2c88e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:26 +0000
Subject: [PATCH 24/93] fix: split_solid returns the list of both halves it
 documents

The call lacked list_val's element type and always raised TypeError, and
the checker declared a single solid.
---
 src/yapcad/dsl/runtime/builtins.py | 6 +++---
 src/yapcad/dsl/symbols.py          | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 9302064..5cf18b9 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -2302,7 +2302,7 @@ class BuiltinRegistry:
             return float_val(path_length(path.data))
 
         def _split_solid(s: Value, plane_point: Value, plane_normal: Value) -> Value:
-            """Split a solid at a plane. Returns the negative-side half.
+            """Split a solid at a plane. Returns both halves, negative side first.
 
             Requires OCC (pythonocc-core) at runtime.
             """
@@ -2315,7 +2315,7 @@ class BuiltinRegistry:
                 [pn[0], pn[1], pn[2]]
             )
             # Return both halves as a list
-            return list_val([solid_val(solid_a), solid_val(solid_b)])
+            return list_val([solid_val(solid_a), solid_val(solid_b)], SOLID)
 
         self.register(BuiltinFunction(
             "path3d_eval",
@@ -2329,7 +2329,7 @@ class BuiltinRegistry:
         ))
         self.register(BuiltinFunction(
             "split_solid",
-            _make_sig("split_solid", [SOLID, POINT3D, VECTOR3D], SOLID),
+            _make_sig("split_solid", [SOLID, POINT3D, VECTOR3D], ListType(SOLID)),
             _split_solid,
         ))
         # --- Text Solid Functions (from assembly branch) ---
diff --git a/src/yapcad/dsl/symbols.py b/src/yapcad/dsl/symbols.py
index 6690211..7cc2620 100644
--- a/src/yapcad/dsl/symbols.py
+++ b/src/yapcad/dsl/symbols.py
@@ -523,7 +523,7 @@ class SymbolTable:
             ("s", SOLID, None),
             ("plane_point", POINT3D, None),
             ("plane_normal", VECTOR3D, None),
-        ], SOLID)  # Returns list but typed as SOLID for now (first half)
+        ], make_list_type(SOLID))  # both halves
 
         # Planet gear with integrated hub - eliminates tooth root holes
         # Hub fills from bore to dedendum radius, full face width
-- 
2.43.0


From 6aaf66ca6e02357365b61d62c0b7c66fd80fde0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:54 +0000
Subject: [PATCH 25/93] fix: extrude uses its optional direction argument
 instead of ignoring it

---
 src/yapcad/dsl/runtime/builtins.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 5cf18b9..cd63313 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -1573,13 +1573,15 @@ class BuiltinRegistry:
 
             Args:
                 profile: A region2d (closed 2D shape) to extrude
-                height: Extrusion height along Z axis
+                height: Extrusion height
+                direction: Optional extrusion direction (default: Z axis)
 
             Returns:
                 A solid created by extruding the profile
             """
             from yapcad.geom3d_util import extrude_region2d
-            return solid_val(extrude_region2d(profile.data, height.data))
+            direction = list(args[0].data[:3]) if args else None
+            return solid_val(extrude_region2d(profile.data, height.data, direction=direction))
 
         def _revolve(profile: Value, axis: Value, angle: Value) -> Value:
             """Revolve a 2D region around an axis."""
-- 
2.43.0


From 4db61630ab325e1d594557da2a64eb5d83f406b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 26/93] fix: a default value sees the parameters before it, not
 the caller's variables

---
 src/yapcad/dsl/runtime/interpreter.py | 41 +++++++++++++++++++--------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index 68a6365..c1354ee 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -238,10 +238,8 @@ class Interpreter:
         expressions are appended to *require_failures*.
         """
         wrapped = {}
-
-        # Create a temporary context for evaluating default values
-        from .context import ExecutionContext
-        temp_ctx = ExecutionContext()
+        if require_failures is None:
+            require_failures = []
 
         known = {param.name for param in command.parameters}
         for name in parameters:
@@ -268,17 +266,32 @@ class Interpreter:
                         param_type = FLOAT  # Default fallback
                 wrapped[param.name] = wrap_value(raw_value, param_type)
             elif param.default_value is not None:
-                # Evaluate default value expression using temporary context
-                default_val = self._evaluate(param.default_value, temp_ctx)
-                wrapped[param.name] = default_val
+                wrapped[param.name] = self._evaluate_default(
+                    param.default_value, wrapped, require_failures
+                )
             else:
                 raise RuntimeError(
                     f"Command '{command.name}' missing required argument '{param.name}'"
                 )
-        if require_failures is not None:
-            require_failures.extend(temp_ctx.require_failures)
         return wrapped
 
+    def _evaluate_default(
+        self,
+        default: Expression,
+        bound: Dict[str, Value],
+        require_failures: List[RequireFailure],
+    ) -> Value:
+        """Evaluate a parameter's default value.
+
+        The expression sees the parameters bound before it and nothing of the
+        caller's variables, which is the scope it is type-checked in.
+        """
+        ctx = create_context("", "", bound)
+        try:
+            return self._evaluate(default, ctx)
+        finally:
+            require_failures.extend(ctx.require_failures)
+
     def _execute_command(self, command: Command, ctx: ExecutionContext) -> None:
         """Execute a command's body statements."""
         self._execute_body(command.body, ctx)
@@ -768,7 +781,10 @@ class Interpreter:
             if name in named:
                 bound.append(named[name])
             elif name in defaults:
-                bound.append(self._evaluate(defaults[name], ctx))
+                before = dict(zip(param_names, bound))
+                bound.append(
+                    self._evaluate_default(defaults[name], before, ctx.require_failures)
+                )
             else:
                 raise RuntimeError(f"{target} missing required argument '{name}'")
         return bound
@@ -809,8 +825,9 @@ class Interpreter:
             for i in range(len(args), len(command.parameters)):
                 param = command.parameters[i]
                 if param.default_value is not None:
-                    default_val = self._evaluate(param.default_value, parent_ctx)
-                    param_dict[param.name] = default_val
+                    param_dict[param.name] = self._evaluate_default(
+                        param.default_value, param_dict, parent_ctx.require_failures
+                    )
 
             # Create a new context for the command execution
             module_name = self.current_module.name if self.current_module else "unknown"
-- 
2.43.0


From 9138e10a345725dcb95229fbd287601409d18009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:41 +0000
Subject: [PATCH 27/93] fix: a match pattern binds its name in its own arm, for
 checker and interpreter

---
 src/yapcad/dsl/checker.py             | 12 +++++++++---
 src/yapcad/dsl/runtime/interpreter.py |  5 +++--
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 2dc7a5a..2398c34 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -1195,11 +1195,13 @@ class TypeChecker:
         result_type: Optional[Type] = None
 
         for arm in expr.arms:
-            # Check pattern (just validate it)
+            # The pattern's binding is visible in its own arm only
+            self.symbols.push_scope("match arm")
             self._check_pattern(arm.pattern, subject_type)
 
             # Check body
             arm_type = self._check_expression(arm.body)
+            self.symbols.pop_scope()
 
             if result_type is None:
                 result_type = arm_type
@@ -1222,8 +1224,12 @@ class TypeChecker:
                 )
         elif isinstance(pattern, IdentifierPattern):
             # Binding pattern - introduces variable in arm scope
-            # For now, just note it
-            pass
+            self.symbols.define(Symbol(
+                name=pattern.name,
+                kind=SymbolKind.VARIABLE,
+                type=expected_type,
+                span=pattern.span
+            ))
         elif isinstance(pattern, WildcardPattern):
             # Always matches
             pass
diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index c1354ee..acd5f1e 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -1098,8 +1098,9 @@ class Interpreter:
         subject = self._evaluate(match.subject, ctx)
 
         for arm in match.arms:
-            if self._pattern_matches(arm.pattern, subject, ctx):
-                return self._evaluate(arm.body, ctx)
+            with ctx.new_scope("match-arm"):
+                if self._pattern_matches(arm.pattern, subject, ctx):
+                    return self._evaluate(arm.body, ctx)
 
         raise RuntimeError("No match arm matched")
 
-- 
2.43.0


From 65f576f08a15cf5704a413293fd9857d862e49ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:49 +0000
Subject: [PATCH 28/93] fix: a default value is checked before its own
 parameter is in scope

---
 src/yapcad/dsl/checker.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 2398c34..0ca2f12 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -238,6 +238,17 @@ class TypeChecker:
                 param_type = self._resolve_type_node(param.type_annotation)
             else:
                 param_type = UNKNOWN
+            # Check default value type (it sees the parameters before this one)
+            if param.default_value is not None:
+                default_type = self._check_expression(param.default_value)
+                if param_type != UNKNOWN and not param_type.is_assignable_from(default_type):
+                    self._error(
+                        f"Default value type '{default_type}' is not assignable to "
+                        f"parameter type '{param_type}'",
+                        param.default_value.span,
+                        "E203"
+                    )
+
             symbol = Symbol(
                 name=param.name,
                 kind=SymbolKind.PARAMETER,
@@ -251,17 +262,6 @@ class TypeChecker:
                     "E202"
                 )
 
-            # Check default value type
-            if param.default_value is not None:
-                default_type = self._check_expression(param.default_value)
-                if param_type != UNKNOWN and not param_type.is_assignable_from(default_type):
-                    self._error(
-                        f"Default value type '{default_type}' is not assignable to "
-                        f"parameter type '{param_type}'",
-                        param.default_value.span,
-                        "E203"
-                    )
-
         # Check body
         self._check_block(command.body)
 
-- 
2.43.0


From baa50730160c5dd0b350008dca9270f28cd8e7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:32 +0000
Subject: [PATCH 29/93] fix: an acceptance criterion that cannot be evaluated,
 or a NaN metric, never passes

---
 src/yapcad/package/analysis/calculix.py      |  7 +++
 src/yapcad/package/analysis/fenics.py        | 24 ++++---
 src/yapcad/package/analysis/yapcad_native.py | 66 +++++++++++---------
 3 files changed, 61 insertions(+), 36 deletions(-)

diff --git a/src/yapcad/package/analysis/calculix.py b/src/yapcad/package/analysis/calculix.py
index 721ac8a..8d471c0 100644
--- a/src/yapcad/package/analysis/calculix.py
+++ b/src/yapcad/package/analysis/calculix.py
@@ -295,6 +295,7 @@ class CalculixAdapter(AnalysisAdapter):
             if limit is None and "limit_mm" in rule:
                 limit = rule["limit_mm"]
             if limit is None:
+                status = "pending"
                 continue
             limit = float(limit)
             comparison = rule.get("comparison", "<=")
@@ -306,6 +307,12 @@ class CalculixAdapter(AnalysisAdapter):
                 return "failed"
             if comparison == ">" and not (metric_value > limit):
                 return "failed"
+            if comparison in ("==", "~="):
+                if not (abs(metric_value - limit) <= rule.get("tolerance", 0.0)):
+                    return "failed"
+            elif comparison not in ("<=", "<", ">=", ">"):
+                # Unknown comparison - can't evaluate
+                status = "pending"
         return status
 
 
diff --git a/src/yapcad/package/analysis/fenics.py b/src/yapcad/package/analysis/fenics.py
index 3b1759a..6a73ac5 100644
--- a/src/yapcad/package/analysis/fenics.py
+++ b/src/yapcad/package/analysis/fenics.py
@@ -740,6 +740,7 @@ class FenicsxAdapter(AnalysisAdapter):
         if not acceptance:
             return "passed" if metrics else "pending"
 
+        status = "passed"
         for key, rule in acceptance.items():
             metric_value = metrics.get(key)
 
@@ -750,7 +751,8 @@ class FenicsxAdapter(AnalysisAdapter):
                 metric_value = metrics.get(key.replace(".", "_"))
 
             if metric_value is None:
-                return "pending"
+                status = "pending"
+                continue
 
             limit = rule.get("limit")
             if limit is None:
@@ -760,21 +762,29 @@ class FenicsxAdapter(AnalysisAdapter):
                     pass
 
             if limit is None:
+                status = "pending"
                 continue
 
             limit = float(limit)
             comparison = rule.get("comparison", "<=")
 
-            if comparison == "<=" and metric_value > limit:
+            # A NaN metric satisfies no comparison
+            if comparison == "<=" and not (metric_value <= limit):
                 return "failed"
-            elif comparison == "<" and metric_value >= limit:
+            elif comparison == "<" and not (metric_value < limit):
                 return "failed"
-            elif comparison == ">=" and metric_value < limit:
+            elif comparison == ">=" and not (metric_value >= limit):
                 return "failed"
-            elif comparison == ">" and metric_value <= limit:
+            elif comparison == ">" and not (metric_value > limit):
                 return "failed"
-
-        return "passed"
+            elif comparison in ("==", "~="):
+                if not (abs(metric_value - limit) <= rule.get("tolerance", 0.0)):
+                    return "failed"
+            elif comparison not in ("<=", "<", ">=", ">"):
+                # Unknown comparison - can't evaluate
+                status = "pending"
+
+        return status
 
 
 # Register the backend
diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index f3d6c29..ad43abc 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -571,51 +571,60 @@ class YapCADNativeAdapter(AnalysisAdapter):
         if not acceptance:
             return "passed" if metrics else "pending"
 
+        status = "passed"
         for key, rule in acceptance.items():
-            # Try exact key match first
-            metric_value = metrics.get(key)
-
-            # Try alternate key formats
-            if metric_value is None:
-                # Try without dots (e.g., "bbox_x" for "bbox.x")
-                metric_value = metrics.get(key.replace(".", "_"))
-            if metric_value is None:
-                # Try with underscores as dots
-                metric_value = metrics.get(key.replace("_", "."))
-
+            metric_value = self._metric_value(metrics, key)
             if metric_value is None:
                 # Metric not found - can't evaluate
+                status = "pending"
                 continue
 
             limit = rule.get("limit")
             if limit is None:
+                status = "pending"
                 continue
 
             limit = float(limit)
             comparison = rule.get("comparison", "<=")
             tolerance = rule.get("tolerance", 0.0)
 
+            # A NaN metric satisfies no comparison
             if comparison == "<=":
-                if metric_value > limit:
+                if not (metric_value <= limit):
                     return "failed"
             elif comparison == "<":
-                if metric_value >= limit:
+                if not (metric_value < limit):
                     return "failed"
             elif comparison == ">=":
-                if metric_value < limit:
+                if not (metric_value >= limit):
                     return "failed"
             elif comparison == ">":
-                if metric_value <= limit:
+                if not (metric_value > limit):
                     return "failed"
             elif comparison == "==":
-                if abs(metric_value - limit) > tolerance:
+                if not (abs(metric_value - limit) <= tolerance):
                     return "failed"
             elif comparison == "~=":
                 # Approximate equality with tolerance
-                if abs(metric_value - limit) > tolerance:
+                if not (abs(metric_value - limit) <= tolerance):
                     return "failed"
-
-        return "passed"
+            else:
+                # Unknown comparison - can't evaluate
+                status = "pending"
+
+        return status
+
+    @staticmethod
+    def _metric_value(metrics: Dict[str, float], key: str) -> Optional[float]:
+        """Look up a criterion's metric, trying alternate key formats."""
+        metric_value = metrics.get(key)
+        if metric_value is None:
+            # Try without dots (e.g., "bbox_x" for "bbox.x")
+            metric_value = metrics.get(key.replace(".", "_"))
+        if metric_value is None:
+            # Try with underscores as dots
+            metric_value = metrics.get(key.replace("_", "."))
+        return metric_value
 
     def _get_failed_criteria(
         self, metrics: Dict[str, float], acceptance: Dict[str, Any]
@@ -624,9 +633,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
         failed = []
 
         for key, rule in acceptance.items():
-            metric_value = metrics.get(key)
-            if metric_value is None:
-                metric_value = metrics.get(key.replace(".", "_"))
+            metric_value = self._metric_value(metrics, key)
             if metric_value is None:
                 continue
 
@@ -636,15 +643,18 @@ class YapCADNativeAdapter(AnalysisAdapter):
 
             limit = float(limit)
             comparison = rule.get("comparison", "<=")
+            tolerance = rule.get("tolerance", 0.0)
 
             violated = False
-            if comparison == "<=" and metric_value > limit:
+            if comparison == "<=" and not (metric_value <= limit):
                 violated = True
-            elif comparison == "<" and metric_value >= limit:
+            elif comparison == "<" and not (metric_value < limit):
                 violated = True
-            elif comparison == ">=" and metric_value < limit:
+            elif comparison == ">=" and not (metric_value >= limit):
                 violated = True
-            elif comparison == ">" and metric_value <= limit:
+            elif comparison == ">" and not (metric_value > limit):
+                violated = True
+            elif comparison in ("==", "~=") and not (abs(metric_value - limit) <= tolerance):
                 violated = True
 
             if violated:
@@ -664,9 +674,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
         results = {}
 
         for key, rule in acceptance.items():
-            metric_value = metrics.get(key)
-            if metric_value is None:
-                metric_value = metrics.get(key.replace(".", "_"))
+            metric_value = self._metric_value(metrics, key)
 
             limit = rule.get("limit")
             comparison = rule.get("comparison", "<=")
-- 
2.43.0


From 2842e118c1af7d528949b816bacc1b188f0d70a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 30/93] fix: the CalculiX adapter never reads the results of an
 earlier run

---
 src/yapcad/package/analysis/calculix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yapcad/package/analysis/calculix.py b/src/yapcad/package/analysis/calculix.py
index 8d471c0..30a73c7 100644
--- a/src/yapcad/package/analysis/calculix.py
+++ b/src/yapcad/package/analysis/calculix.py
@@ -88,6 +88,10 @@ class CalculixAdapter(AnalysisAdapter):
                 artifacts=artifacts,
             )
 
+        # Results of an earlier run must not be taken for this run's
+        for suffix in (".dat", ".frd", ".sta", ".log"):
+            (workspace / f"{inp_basename}{suffix}").unlink(missing_ok=True)
+
         run = subprocess.run(
             [executable, inp_basename],
             cwd=workspace,
-- 
2.43.0


From 536e86cfc64a5630b79ac983686709a5e20e72d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:50 +0000
Subject: [PATCH 31/93] fix: a plan id cannot direct analysis output outside
 the results directory

---
 src/yapcad/package/analysis/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/package/analysis/cli.py b/src/yapcad/package/analysis/cli.py
index 1dacd8c..3defaa3 100644
--- a/src/yapcad/package/analysis/cli.py
+++ b/src/yapcad/package/analysis/cli.py
@@ -56,6 +56,8 @@ def analyze_package(package_path: Path | str, plan_path: Path | str, *, status:
         plan_path = (root / plan_path).resolve()
 
     plan = load_plan(plan_path)
+    if plan.plan_id in {"", ".", ".."} or "/" in plan.plan_id or "\\" in plan.plan_id:
+        raise ValueError(f"analysis plan id {plan.plan_id!r} is not a plain name")
     _ensure_plan_entry(manifest, plan, plan_path)
 
     results_dir = root / "validation" / "results" / plan.plan_id
-- 
2.43.0


From 6d1fc6aecaeefb6fd908cfea2251d4290b4efcb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:51 +0000
Subject: [PATCH 32/93] fix: a repeated analysis drops the metrics of the run
 it replaces

---
 src/yapcad/package/analysis/cli.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/package/analysis/cli.py b/src/yapcad/package/analysis/cli.py
index 3defaa3..a2360cd 100644
--- a/src/yapcad/package/analysis/cli.py
+++ b/src/yapcad/package/analysis/cli.py
@@ -133,6 +133,9 @@ def analyze_package(package_path: Path | str, plan_path: Path | str, *, status:
     manifest_entry.setdefault("path", str(summary_path.relative_to(root)))
     existing = next((item for item in results if item.get("plan") == plan.plan_id), None)
     if existing:
+        # metrics, artifacts and notes of an earlier run are not this run's
+        for key in ("backend", "timestamp", "metrics", "artifacts", "notes", "summary"):
+            existing.pop(key, None)
         existing.update(manifest_entry)
     else:
         results.append(manifest_entry)
-- 
2.43.0


From 03dbda634324f8dec128e30a181d011a10b6359e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:51 +0000
Subject: [PATCH 33/93] fix: keep the acceptance results in the summary written
 for a package

---
 src/yapcad/package/analysis/yapcad_native.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index ad43abc..28d8c6c 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -106,6 +106,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
             # Evaluate acceptance criteria
             status = self._evaluate_acceptance(metrics, plan.acceptance)
             summary["metrics"] = metrics
+            summary["acceptance_results"] = self._build_acceptance_results(metrics, plan.acceptance)
 
             if status == "passed":
                 summary["statusDetail"] = "Acceptance criteria satisfied"
@@ -133,7 +134,7 @@ class YapCADNativeAdapter(AnalysisAdapter):
                 "timestamp": summary["timestamp"],
                 "backend": "yapcad",
                 "metrics": metrics,
-                "acceptance_results": self._build_acceptance_results(metrics, plan.acceptance),
+                "acceptance_results": summary["acceptance_results"],
             }, f, indent=2)
         artifacts.append({"kind": "summary", "path": "summary.json"})
 
-- 
2.43.0


From 6dc6ff5be149f9408fe0a6aa51e33b159de6b30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:33 +0000
Subject: [PATCH 34/93] fix: bounding box checks give the bbox.x, bbox.y and
 bbox.z metrics the schema documents

---
 src/yapcad/package/analysis/yapcad_native.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index 28d8c6c..63a0cc0 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -370,10 +370,13 @@ class YapCADNativeAdapter(AnalysisAdapter):
 
         # Add axis-specific keys
         if axis == "x" or axis == "all":
+            metrics["bbox.x"] = width
             metrics[f"bbox.x_{units}"] = width
         if axis == "y" or axis == "all":
+            metrics["bbox.y"] = depth
             metrics[f"bbox.y_{units}"] = depth
         if axis == "z" or axis == "all":
+            metrics["bbox.z"] = height
             metrics[f"bbox.z_{units}"] = height
 
         return metrics
-- 
2.43.0


From 3dd58f47f43e19d5214d2002db77f8d2d8128574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 35/93] fix: a manifest that cannot be serialised does not
 destroy the one on disk

---
 src/yapcad/package/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 04dba65..1fe44ae 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -120,8 +120,10 @@ class PackageManifest:
         self.root.mkdir(parents=True, exist_ok=True)
         import yaml
 
+        # serialise first: data YAML cannot represent must not truncate the manifest on disk
+        text = yaml.safe_dump(self.data, sort_keys=False)
         with self.manifest_path.open("w", encoding="utf-8") as fp:
-            yaml.safe_dump(self.data, fp, sort_keys=False)
+            fp.write(text)
 
     def recompute_hashes(self, *, algorithm: str = "sha256") -> None:
         geom = self.data.get("geometry", {})
-- 
2.43.0


From c0d1673233f87f8e1c1aa6f9d5184ebb618b5052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 36/93] fix: an unsupported category is refused before the file
 is copied into the package

---
 src/yapcad/package/core.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 1fe44ae..be565a3 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -267,6 +267,8 @@ def add_geometry_file(
     src_path = Path(source)
     if not src_path.exists():
         raise FileNotFoundError(f"geometry source not found: {src_path}")
+    if category not in ("derived", "attachments"):
+        raise ValueError(f"unsupported category for geometry file: {category}")
 
     if dest_relative is None:
         if category == "derived":
-- 
2.43.0


From 28de24376436bb4507fe4fb9f53b298e21010373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 37/93] fix: add_geometry_file never writes outside the package

---
 src/yapcad/package/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index be565a3..892fe69 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -279,8 +279,8 @@ def add_geometry_file(
             dest_relative_path = Path(src_path.name)
     else:
         dest_relative_path = Path(dest_relative)
-        if dest_relative_path.is_absolute():
-            raise ValueError("dest_relative must be a relative path")
+        if dest_relative_path.is_absolute() or ".." in dest_relative_path.parts:
+            raise ValueError("dest_relative must be a relative path inside the package")
 
     dest_path = manifest.root / dest_relative_path
     dest_path.parent.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From d9d5f7bdbf3e76565089d37b67c500335c99b7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:09 +0000
Subject: [PATCH 38/93] fix: metadata cannot replace the path and hash of a
 file added to a package

---
 src/yapcad/package/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/package/core.py b/src/yapcad/package/core.py
index 892fe69..1e046a8 100644
--- a/src/yapcad/package/core.py
+++ b/src/yapcad/package/core.py
@@ -302,7 +302,8 @@ def add_geometry_file(
     if purpose:
         entry["purpose"] = purpose
     if metadata:
-        entry.update(metadata)
+        # path and hash describe the stored file, whatever the metadata says
+        entry.update({k: v for k, v in metadata.items() if k not in ("path", "hash")})
 
     if category == "derived":
         geometry = manifest.data.setdefault("geometry", {})
-- 
2.43.0


From b4e17a781025457b374933c8d704bddd881b2df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:38 +0000
Subject: [PATCH 39/93] fix: adding a signature does not overwrite the file of
 an earlier one

---
 src/yapcad/package/signing.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/package/signing.py b/src/yapcad/package/signing.py
index cca4a98..09836ef 100644
--- a/src/yapcad/package/signing.py
+++ b/src/yapcad/package/signing.py
@@ -342,6 +342,16 @@ def _verify_ssh_signature(
         Path(sig_file).unlink(missing_ok=True)
 
 
+def _signature_path(sig_dir: Path, stem: str, suffix: str, keep_existing: bool) -> Path:
+    """Path for a new signature; with ``keep_existing`` never that of another signature."""
+    path = sig_dir / f"{stem}{suffix}"
+    number = 2
+    while keep_existing and path.exists():
+        path = sig_dir / f"{stem}-{number}{suffix}"
+        number += 1
+    return path
+
+
 def sign_package(
     package_path: str | Path,
     method: str | SignatureMethod = SignatureMethod.GPG,
@@ -386,7 +396,7 @@ def sign_package(
     
     if method == SignatureMethod.GPG:
         signature, signer_id, actual_key_id = _sign_with_gpg(content, key_id)
-        sig_file = sig_dir / "manifest.sig.asc"
+        sig_file = _signature_path(sig_dir, "manifest.sig", ".asc", add)
         sig_file.write_text(signature)
         
         sig_info = SignatureInfo(
@@ -403,7 +413,7 @@ def sign_package(
         
         # Generate unique filename for SSH signatures
         safe_name = signer_id.replace('@', '_').replace(' ', '_').replace('/', '_')[:20]
-        sig_file = sig_dir / f"manifest.sig.{safe_name}"
+        sig_file = _signature_path(sig_dir, f"manifest.sig.{safe_name}", "", add)
         sig_file.write_text(signature)
         
         sig_info = SignatureInfo(
-- 
2.43.0


From 49cf4930164951f488a857d125941897d059159b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:24 +0000
Subject: [PATCH 40/93] fix: geometry helpers refer to names that exist

---
 src/yapcad/geom.py  | 9 ++++-----
 src/yapcad/xform.py | 2 +-
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 807fc49..9465a2a 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2157,7 +2157,6 @@ def linePointXY(l,p,inside=True,distance=False,params=False):
     ## check to see if all three points lie in the same x,y plane
     if not isXYPlanar([p,a,b]):
         raise ValueError('non-XY points in linePointXY call')
-        return false
     # if abs(z1-z0) > epsilon or abs(z2-z0) > epsilon:
     #    return False
 
@@ -3264,7 +3263,7 @@ def unsamplepoly(a,p):
 ## and poly a.
 def intersectSimplePolyXY(g,a,inside=True,params=False):
     if not (ispoly(a) and isXYPlanar(a)):
-        raise ValueError('non-XY-planar or bad poly argument to intersectSimplePOlyXY: {}'.format(vstr(p)))
+        raise ValueError('non-XY-planar or bad poly argument to intersectSimplePOlyXY: {}'.format(vstr(a)))
     closed = False
     ARC=False
     LINE=False
@@ -3460,7 +3459,7 @@ def unsamplegeomlist(gl,p):
     False if the point is more than epsilon away from any poly line
     segment
     """
-    if not isgeomlist(g):
+    if not isgeomlist(gl):
         raise ValueError('non geometry list passed to unsamplegeomlist')
 
     lengths,leng = __geomlistlength(gl)
@@ -3479,14 +3478,14 @@ def unsamplegeomlist(gl,p):
                 uu = unsample(gl[i],p)
                 if (not isinstance(uu,bool)
                     and uu >= 0.0 and uu < 1.0):
-                    return (uu*lengths[i]+dst)/length
+                    return (uu*lengths[i]+dst)/leng
                 else:
                     dst = dst+lengths[i]
         uu2 = unsample(gl[-1],p)
         
         if (not isinstance(uu2,bool) and
             uu2 >= 0.0 and uu2 <= 1.0):
-            return (uu2*lengths[-1]+dst)/length
+            return (uu2*lengths[-1]+dst)/leng
         else:
             return False
 
diff --git a/src/yapcad/xform.py b/src/yapcad/xform.py
index d25a419..126e089 100644
--- a/src/yapcad/xform.py
+++ b/src/yapcad/xform.py
@@ -204,7 +204,7 @@ def Rotation(axis,angle,inverse=False):
     if m < geom.epsilon:
         raise ValueError('zero-length rotation axis not allowed')
     if not geom.close(m,1.0):
-        u = geom.geom.scale3(axis,1.0/m)
+        u = geom.scale3(axis,1.0/m)
 
     if inverse:
         angle *= -1.0
-- 
2.43.0


From d912faa6ccbca8c303dd689df99ebd8ac00a3330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:47 +0000
Subject: [PATCH 41/93] fix: the DSL volume, surface_area and
 identity_transform functions call functions that exist

---
 src/yapcad/dsl/runtime/builtins.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index cd63313..5318193 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -342,8 +342,8 @@ class BuiltinRegistry:
 
         def _identity_transform() -> Value:
             """Create an identity transform."""
-            from yapcad.xform import Identity
-            return transform_val(Identity())
+            from yapcad.xform import Matrix
+            return transform_val(Matrix())
 
         def _translate(s: Value, x: Value, y: Value, z: Value) -> Value:
             """Translate a solid by (x, y, z)."""
@@ -2769,13 +2769,13 @@ class BuiltinRegistry:
 
         def _volume(s: Value) -> Value:
             """Calculate volume of a solid."""
-            from yapcad.geom3d import volume
-            return float_val(volume(s.data))
+            from yapcad.geom3d import volumeof
+            return float_val(volumeof(s.data))
 
         def _surface_area(s: Value) -> Value:
             """Calculate surface area of a solid."""
-            from yapcad.geom3d import surface_area
-            return float_val(surface_area(s.data))
+            from yapcad.geom3d import surfacearea
+            return float_val(sum(surfacearea(surf) for surf in s.data[1]))
 
         def _area(r: Value) -> Value:
             """Calculate area of a region2d using shoelace formula."""
-- 
2.43.0


From 91e50b18b8659d99e491317b1a7f852e54bc053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:59 +0000
Subject: [PATCH 42/93] fix: engrave_text and sweep_along_path pass the
 parameters their callees declare

---
 src/yapcad/geom3d_util.py | 2 +-
 src/yapcad/text3d.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index b703487..ecf90e8 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -3550,7 +3550,7 @@ def sweep_along_path(profile, path, *, segments=32, metadata=None):
 
     # Use adaptive sweep for better quality
     try:
-        return sweep_adaptive(profile, path_poly, threshold=5.0, metadata=metadata)
+        return sweep_adaptive(profile, path_poly, angle_threshold_deg=5.0, metadata=metadata)
     except RuntimeError:
         # Fallback to basic sweep if OCC not available
         return sweep_profile_along_path(profile, path_poly, metadata=metadata)
diff --git a/src/yapcad/text3d.py b/src/yapcad/text3d.py
index 38649a4..bec03d0 100644
--- a/src/yapcad/text3d.py
+++ b/src/yapcad/text3d.py
@@ -1433,7 +1433,7 @@ def engrave_text(target_solid, text, position, normal, height=3.0, depth=0.5, sp
         if rot_axis_mag > epsilon and abs(angle) > epsilon:
             rot_axis = point(rx / rot_axis_mag, ry / rot_axis_mag, rz / rot_axis_mag)
             angle_deg = math.degrees(angle)
-            rot_matrix = Rotation(angle_deg, cent=point(0, 0, 0), axis=rot_axis)
+            rot_matrix = Rotation(rot_axis, angle_deg)
 
             # Transform vertices
             new_verts = []
-- 
2.43.0


From 3bcbed4bae3b26ce6b0f3758d1f21d969a5442e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:20 +0000
Subject: [PATCH 43/93] fix: assembly, package and export code calls helpers
 under the names they have

---
 src/yapcad/assembly/assembly.py            |  8 ++--
 src/yapcad/assembly/datum_registry.py      |  2 +-
 src/yapcad/assembly/face_mate.py           |  5 +-
 src/yapcad/assembly/resolver.py            |  6 +--
 src/yapcad/dsl/runtime/interpreter.py      |  2 +-
 src/yapcad/io/meta_yaml.py                 | 12 ++---
 src/yapcad/kinematics/frame.py             |  2 +-
 src/yapcad/package/analysis/face_naming.py | 54 ++++++++++++++--------
 8 files changed, 54 insertions(+), 37 deletions(-)

diff --git a/src/yapcad/assembly/assembly.py b/src/yapcad/assembly/assembly.py
index b8cf829..60d6b23 100644
--- a/src/yapcad/assembly/assembly.py
+++ b/src/yapcad/assembly/assembly.py
@@ -159,7 +159,7 @@ class AssemblyValidationResult:
         ...     print(f"Found {len(result.failed_constraints)} failures")
         ...     for name in result.failed_constraints:
         ...         cr = result.constraint_results[name]
-        ...         print(f"  {name}: {cr.message}")
+        ...         print(f"  {name}: {cr.error_message}")
     """
 
     is_valid: bool
@@ -623,7 +623,7 @@ class Assembly:
             lines = [f"Assembly '{self.name}' validation failed:"]
             for name in result.failed_constraints:
                 cr = result.constraint_results[name]
-                lines.append(f"  - {name}: {cr.message}")
+                lines.append(f"  - {name}: {cr.error_message}")
 
             raise AssemblyError(
                 "\n".join(lines),
@@ -664,7 +664,7 @@ class Assembly:
             elif mate.mate_type == MateType.CONCENTRIC:
                 # Removes 2 DOF (can slide and rotate along axis)
                 dof[mate.part2] = max(0, dof[mate.part2] - 2)
-            elif mate.mate_type == MateType.FLUSH:
+            elif mate.mate_type == MateType.PLANAR:
                 # Removes 3 DOF (orientation locked, can slide in plane)
                 dof[mate.part2] = max(0, dof[mate.part2] - 3)
             elif mate.mate_type == MateType.PARALLEL:
@@ -877,7 +877,7 @@ class Assembly:
                 lines.append(f"  STATUS: INVALID ({len(result.failed_constraints)} failures)")
                 for name in result.failed_constraints:
                     cr = result.constraint_results[name]
-                    lines.append(f"    FAILED: {name} - {cr.message}")
+                    lines.append(f"    FAILED: {name} - {cr.error_message}")
 
             if result.warnings:
                 lines.append(f"  WARNINGS: {len(result.warnings)}")
diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index 1707267..d5693aa 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -219,7 +219,7 @@ class DatumRegistry:
         """
         instance = cls._get_instance()
 
-        datums = {d.name: d for d in part.datums}
+        datums = {d.name: d for d in part.datums.values()}
         cls.register_source(
             source_id=part.name,
             datums=datums,
diff --git a/src/yapcad/assembly/face_mate.py b/src/yapcad/assembly/face_mate.py
index 10b5c71..7c1fb35 100644
--- a/src/yapcad/assembly/face_mate.py
+++ b/src/yapcad/assembly/face_mate.py
@@ -181,13 +181,12 @@ class FaceToFaceMate:
         self._child_datum_obj = child_datum
 
         # Compute transform based on constraint type
-        if self.constraint in (MateType.COINCIDENT, MateType.ALIGNED):
-            flip_normal = (self.constraint == MateType.COINCIDENT)
+        if self.constraint == MateType.COINCIDENT:
             tf = compute_flush_transform(
                 parent_datum, child_datum,
                 offset=self.offset_distance,
                 rotation_deg=self.rotation_about_normal,
-                flip_normal=flip_normal
+                flip_normal=True
             )
         elif self.constraint == MateType.CONCENTRIC:
             tf = compute_concentric_transform(
diff --git a/src/yapcad/assembly/resolver.py b/src/yapcad/assembly/resolver.py
index 6eb7902..7b6b6c8 100644
--- a/src/yapcad/assembly/resolver.py
+++ b/src/yapcad/assembly/resolver.py
@@ -166,13 +166,13 @@ class AssemblyResolver(ABC):
         # Import lazily to avoid circular deps and optional-dep failures.
         # Strategy: try yapCAD geom3d first, fall back to direct OCC.
         try:
-            from ..geom3d import boolean3d  # type: ignore[import]
+            from ..geom3d import solid_boolean
             op_map = {"subtract": "difference", "intersect": "intersection", "union": "union"}
             op_name = op_map.get(kind, kind)
             kwargs: Dict[str, Any] = {}
             if engine:
                 kwargs["engine"] = engine
-            return boolean3d(target_geom, cutter_geom, op_name, **kwargs)
+            return solid_boolean(target_geom, cutter_geom, op_name, **kwargs)
         except (ImportError, AttributeError):
             pass
 
@@ -199,7 +199,7 @@ class AssemblyResolver(ABC):
 
         raise RuntimeError(
             "No boolean engine available: install OCC (yapcad-brep conda env) "
-            "or ensure geom3d.boolean3d is importable"
+            "or ensure geom3d.solid_boolean is importable"
         )
 
     @staticmethod
diff --git a/src/yapcad/dsl/runtime/interpreter.py b/src/yapcad/dsl/runtime/interpreter.py
index acd5f1e..c35cb8f 100644
--- a/src/yapcad/dsl/runtime/interpreter.py
+++ b/src/yapcad/dsl/runtime/interpreter.py
@@ -503,7 +503,7 @@ class Interpreter:
         # For now, we extract any variable named '_return_value' and '_return_type'
         if '_return_value' in namespace and '_return_type' in namespace:
             return_type = resolve_type_name(namespace['_return_type'])
-            ctx.set_variable(block.result_var or '_python_result',
+            ctx.set_variable('_python_result',
                            wrap_value(namespace['_return_value'], return_type))
 
     def _execute_native_block(self, block: NativeBlock) -> None:
diff --git a/src/yapcad/io/meta_yaml.py b/src/yapcad/io/meta_yaml.py
index 597b943..fdd225b 100644
--- a/src/yapcad/io/meta_yaml.py
+++ b/src/yapcad/io/meta_yaml.py
@@ -181,12 +181,12 @@ def sidecar_path_for(geometry_path: str | os.PathLike) -> Path:
 
 def _extract_metadata(part: Any) -> Optional[Dict[str, Any]]:
     """Return the metadata dict from *part*, or ``None`` if absent."""
-    try:
-        from yapcad.metadata import get_metadata  # type: ignore[import]
-        meta = get_metadata(part)
-        return meta if meta else None
-    except (ImportError, Exception):
-        pass
+    # yapCAD solids and surfaces carry their metadata as a trailing dict.
+    if isinstance(part, list) and part and isinstance(part[-1], dict):
+        from yapcad.geom3d import issolid, issurface
+        if part[-1] and (issolid(part) or issurface(part)):
+            return part[-1]
+        return None
 
     # Fallback: check common attribute names used in yapCAD internals.
     for attr in ("_metadata", "metadata", "meta"):
diff --git a/src/yapcad/kinematics/frame.py b/src/yapcad/kinematics/frame.py
index 11bee8b..a549aa4 100644
--- a/src/yapcad/kinematics/frame.py
+++ b/src/yapcad/kinematics/frame.py
@@ -94,7 +94,7 @@ class CoordinateFrame:
         """
         try:
             from yapcad.assembly.datum_registry import DatumRegistry
-            from yapcad.assembly.face_mate import datum_to_transform_matrix
+            from yapcad.assembly.datum_registry import datum_to_transform_matrix
 
             datum = DatumRegistry.get_datum(self.datum_source, self.datum_name)
             if datum is not None:
diff --git a/src/yapcad/package/analysis/face_naming.py b/src/yapcad/package/analysis/face_naming.py
index d0f14e7..724e4e3 100644
--- a/src/yapcad/package/analysis/face_naming.py
+++ b/src/yapcad/package/analysis/face_naming.py
@@ -216,12 +216,12 @@ class FaceNamer:
 
     def _extract_faces(self) -> None:
         """Extract face information from solid."""
-        from yapcad.geom3d import issolid, getsurfaces
+        from yapcad.geom3d import issolid
 
         if not issolid(self.solid):
             return
 
-        surfaces = getsurfaces(self.solid)
+        surfaces = self.solid[1]
 
         for i, surf in enumerate(surfaces):
             centroid = self._compute_centroid(surf)
@@ -236,30 +236,48 @@ class FaceNamer:
             ))
 
     def _compute_centroid(self, surface: Any) -> Tuple[float, float, float]:
-        """Compute face centroid."""
-        from yapcad.geom3d import surface_center
-        try:
-            center = surface_center(surface)
-            return (float(center[0]), float(center[1]), float(center[2]))
-        except Exception:
+        """Compute face centroid (area-weighted over its triangles)."""
+        total = 0.0
+        acc = [0.0, 0.0, 0.0]
+        for p0, p1, p2, cross in self._triangles(surface):
+            area = math.sqrt(sum(c * c for c in cross)) / 2.0
+            total += area
+            for k in range(3):
+                acc[k] += area * (p0[k] + p1[k] + p2[k]) / 3.0
+        if total <= 0.0:
             return (0.0, 0.0, 0.0)
+        return (acc[0] / total, acc[1] / total, acc[2] / total)
 
     def _compute_normal(self, surface: Any) -> Tuple[float, float, float]:
         """Compute face normal (average for curved faces)."""
-        from yapcad.geom3d import surface_normal
-        try:
-            normal = surface_normal(surface)
-            return (float(normal[0]), float(normal[1]), float(normal[2]))
-        except Exception:
+        acc = [0.0, 0.0, 0.0]
+        for _, _, _, cross in self._triangles(surface):
+            for k in range(3):
+                acc[k] += cross[k]
+        mag = math.sqrt(sum(c * c for c in acc))
+        if mag <= 0.0:
             return (0.0, 0.0, 1.0)
+        return (acc[0] / mag, acc[1] / mag, acc[2] / mag)
 
     def _compute_area(self, surface: Any) -> float:
         """Compute face area."""
-        from yapcad.geom3d import surface_area
-        try:
-            return float(surface_area(surface))
-        except Exception:
-            return 0.0
+        from yapcad.geom3d import surfacearea
+        return float(surfacearea(surface))
+
+    @staticmethod
+    def _triangles(surface: Any):
+        """Yield the corners and (unnormalised) normal of each triangle."""
+        vertices = surface[1]
+        for face in surface[3]:
+            p0, p1, p2 = (vertices[i] for i in face[:3])
+            u = [p1[k] - p0[k] for k in range(3)]
+            v = [p2[k] - p0[k] for k in range(3)]
+            cross = (
+                u[1] * v[2] - u[2] * v[1],
+                u[2] * v[0] - u[0] * v[2],
+                u[0] * v[1] - u[1] * v[0],
+            )
+            yield p0, p1, p2, cross
 
     @property
     def faces(self) -> List[FaceInfo]:
-- 
2.43.0


From d93bfde869e1f48c2cb9a67b038c753ff0839264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:46 +0000
Subject: [PATCH 44/93] fix: TreeTransform rebuilds the nodes the parser
 produces

---
 src/yapcad/dsl/transforms/base.py | 155 ++++++++++++++++--------------
 1 file changed, 84 insertions(+), 71 deletions(-)

diff --git a/src/yapcad/dsl/transforms/base.py b/src/yapcad/dsl/transforms/base.py
index 1179a7e..daa7f96 100644
--- a/src/yapcad/dsl/transforms/base.py
+++ b/src/yapcad/dsl/transforms/base.py
@@ -11,17 +11,18 @@ before interpretation. This allows for future optimizations like:
 
 from abc import ABC, abstractmethod
 from typing import List, Optional, TypeVar, Generic
-from copy import deepcopy
+from dataclasses import replace
 
 from ..ast import (
     AstNode, Module, Command, Parameter,
     Statement, LetStatement, AssignmentStatement, RequireStatement,
-    EmitStatement, ForStatement, ExpressionStatement, ReturnStatement,
+    EmitStatement, ForStatement, WhileStatement, IfStatement,
+    ExpressionStatement, ReturnStatement,
     Block, PythonBlock,
     Expression, Literal, Identifier, BinaryOp, UnaryOp,
     FunctionCall, MethodCall, MemberAccess, IndexAccess,
     ListLiteral, ListComprehension, RangeExpr, DictLiteral,
-    IfExpr, MatchExpr, LambdaExpr, PythonExpr,
+    IfExpr, ConditionalExpr, MatchExpr, LambdaExpr, PythonExpr,
 )
 
 
@@ -67,24 +68,14 @@ class TreeTransform(AstTransform):
 
     def visit_module(self, node: Module) -> Module:
         """Visit a module node."""
-        new_commands = [self.visit_command(cmd) for cmd in node.commands]
-        return Module(
-            name=node.name,
-            uses=node.uses,  # Don't transform use statements
-            commands=new_commands,
-            span=node.span,
+        return replace(
+            node,
+            functions=[self.visit_command(fn) for fn in node.functions],
         )
 
     def visit_command(self, node: Command) -> Command:
         """Visit a command node."""
-        new_body = [self.visit_statement(stmt) for stmt in node.body]
-        return Command(
-            name=node.name,
-            params=node.params,
-            return_type=node.return_type,
-            body=new_body,
-            span=node.span,
-        )
+        return replace(node, body=self.visit_block(node.body))
 
     def visit_statement(self, node: Statement) -> Statement:
         """Visit a statement node."""
@@ -98,6 +89,10 @@ class TreeTransform(AstTransform):
             return self.visit_emit(node)
         elif isinstance(node, ForStatement):
             return self.visit_for(node)
+        elif isinstance(node, WhileStatement):
+            return self.visit_while(node)
+        elif isinstance(node, IfStatement):
+            return self.visit_if_statement(node)
         elif isinstance(node, ExpressionStatement):
             return self.visit_expr_statement(node)
         elif isinstance(node, ReturnStatement):
@@ -111,13 +106,9 @@ class TreeTransform(AstTransform):
 
     def visit_let(self, node: LetStatement) -> Statement:
         """Visit a let statement."""
-        new_value = self.visit_expression(node.value)
-        return LetStatement(
-            name=node.name,
-            type_annotation=node.type_annotation,
-            value=new_value,
-            span=node.span,
-        )
+        if node.initializer is None:
+            return node
+        return replace(node, initializer=self.visit_expression(node.initializer))
 
     def visit_assignment(self, node: AssignmentStatement) -> Statement:
         """Visit an assignment statement."""
@@ -131,18 +122,13 @@ class TreeTransform(AstTransform):
     def visit_require(self, node: RequireStatement) -> Statement:
         """Visit a require statement."""
         new_condition = self.visit_expression(node.condition)
-        return RequireStatement(
-            condition=new_condition,
-            message=node.message,
-            span=node.span,
-        )
+        new_message = self.visit_expression(node.message) if node.message else None
+        return replace(node, condition=new_condition, message=new_message)
 
     def visit_emit(self, node: EmitStatement) -> Statement:
         """Visit an emit statement."""
         new_value = self.visit_expression(node.value)
-        new_metadata = None
-        if node.metadata:
-            new_metadata = {k: self.visit_expression(v) for k, v in node.metadata.items()}
+        new_metadata = {k: self.visit_expression(v) for k, v in node.metadata.items()}
         return EmitStatement(
             value=new_value,
             metadata=new_metadata,
@@ -152,12 +138,37 @@ class TreeTransform(AstTransform):
     def visit_for(self, node: ForStatement) -> Statement:
         """Visit a for statement."""
         new_iterable = self.visit_expression(node.iterable)
-        new_body = [self.visit_statement(stmt) for stmt in node.body]
-        return ForStatement(
-            variable=node.variable,
-            iterable=new_iterable,
-            body=new_body,
-            span=node.span,
+        return replace(node, iterable=new_iterable, body=self.visit_block(node.body))
+
+    def visit_while(self, node: WhileStatement) -> Statement:
+        """Visit a while statement."""
+        return replace(
+            node,
+            condition=self.visit_expression(node.condition),
+            body=self.visit_block(node.body),
+        )
+
+    def visit_if_statement(self, node: IfStatement) -> Statement:
+        """Visit an if statement."""
+        return self._visit_branches(node)
+
+    def _visit_branches(self, node):
+        """Rebuild an if statement or expression from its visited branches."""
+        new_elifs = [
+            replace(
+                branch,
+                condition=self.visit_expression(branch.condition),
+                body=self.visit_block(branch.body),
+            )
+            for branch in node.elif_branches
+        ]
+        new_else = self.visit_block(node.else_branch) if node.else_branch else None
+        return replace(
+            node,
+            condition=self.visit_expression(node.condition),
+            then_branch=self.visit_block(node.then_branch),
+            elif_branches=new_elifs,
+            else_branch=new_else,
         )
 
     def visit_expr_statement(self, node: ExpressionStatement) -> Statement:
@@ -170,10 +181,13 @@ class TreeTransform(AstTransform):
         new_value = self.visit_expression(node.value) if node.value else None
         return ReturnStatement(value=new_value, span=node.span)
 
-    def visit_block(self, node: Block) -> Statement:
+    def visit_block(self, node: Block) -> Block:
         """Visit a block."""
         new_stmts = [self.visit_statement(stmt) for stmt in node.statements]
-        return Block(statements=new_stmts, span=node.span)
+        new_final = node.final_expression
+        if new_final is not None:
+            new_final = self.visit_expression(new_final)
+        return replace(node, statements=new_stmts, final_expression=new_final)
 
     def visit_python_block(self, node: PythonBlock) -> Statement:
         """Visit a Python block (no transformation by default)."""
@@ -207,6 +221,8 @@ class TreeTransform(AstTransform):
             return self.visit_dict_literal(node)
         elif isinstance(node, IfExpr):
             return self.visit_if_expr(node)
+        elif isinstance(node, ConditionalExpr):
+            return self.visit_conditional(node)
         elif isinstance(node, MatchExpr):
             return self.visit_match_expr(node)
         elif isinstance(node, LambdaExpr):
@@ -242,21 +258,14 @@ class TreeTransform(AstTransform):
 
     def visit_function_call(self, node: FunctionCall) -> Expression:
         new_args = [self.visit_expression(arg) for arg in node.arguments]
-        return FunctionCall(
-            name=node.name,
-            arguments=new_args,
-            span=node.span,
-        )
+        new_named = {k: self.visit_expression(v) for k, v in node.named_arguments.items()}
+        return replace(node, arguments=new_args, named_arguments=new_named)
 
     def visit_method_call(self, node: MethodCall) -> Expression:
         new_obj = self.visit_expression(node.object)
         new_args = [self.visit_expression(arg) for arg in node.arguments]
-        return MethodCall(
-            object=new_obj,
-            method=node.method,
-            arguments=new_args,
-            span=node.span,
-        )
+        new_named = {k: self.visit_expression(v) for k, v in node.named_arguments.items()}
+        return replace(node, object=new_obj, arguments=new_args, named_arguments=new_named)
 
     def visit_member_access(self, node: MemberAccess) -> Expression:
         new_obj = self.visit_expression(node.object)
@@ -272,41 +281,45 @@ class TreeTransform(AstTransform):
         return ListLiteral(elements=new_elements, span=node.span)
 
     def visit_list_comprehension(self, node: ListComprehension) -> Expression:
-        new_expr = self.visit_expression(node.expression)
-        new_iterable = self.visit_expression(node.iterable)
-        new_condition = self.visit_expression(node.condition) if node.condition else None
-        return ListComprehension(
-            expression=new_expr,
-            variable=node.variable,
-            iterable=new_iterable,
-            condition=new_condition,
-            span=node.span,
+        new_clauses = [
+            replace(
+                clause,
+                iterable=self.visit_expression(clause.iterable),
+                conditions=[self.visit_expression(c) for c in clause.conditions],
+            )
+            for clause in node.clauses
+        ]
+        return replace(
+            node,
+            element_expr=self.visit_expression(node.element_expr),
+            clauses=new_clauses,
         )
 
     def visit_range(self, node: RangeExpr) -> Expression:
         new_start = self.visit_expression(node.start)
         new_end = self.visit_expression(node.end)
-        return RangeExpr(start=new_start, end=new_end, span=node.span)
+        new_step = self.visit_expression(node.step) if node.step else None
+        return replace(node, start=new_start, end=new_end, step=new_step)
 
     def visit_dict_literal(self, node: DictLiteral) -> Expression:
         new_entries = {k: self.visit_expression(v) for k, v in node.entries.items()}
         return DictLiteral(entries=new_entries, span=node.span)
 
     def visit_if_expr(self, node: IfExpr) -> Expression:
-        new_cond = self.visit_expression(node.condition)
-        new_then = self.visit_expression(node.then_branch)
-        new_else = self.visit_expression(node.else_branch) if node.else_branch else None
-        return IfExpr(
-            condition=new_cond,
-            then_branch=new_then,
-            else_branch=new_else,
-            span=node.span,
+        return self._visit_branches(node)
+
+    def visit_conditional(self, node: ConditionalExpr) -> Expression:
+        return replace(
+            node,
+            condition=self.visit_expression(node.condition),
+            true_branch=self.visit_expression(node.true_branch),
+            false_branch=self.visit_expression(node.false_branch),
         )
 
     def visit_match_expr(self, node: MatchExpr) -> Expression:
         new_subject = self.visit_expression(node.subject)
-        # Arms would need pattern visiting too - simplified for now
-        return MatchExpr(subject=new_subject, arms=node.arms, span=node.span)
+        new_arms = [replace(arm, body=self.visit_expression(arm.body)) for arm in node.arms]
+        return replace(node, subject=new_subject, arms=new_arms)
 
     def visit_lambda(self, node: LambdaExpr) -> Expression:
         new_body = self.visit_expression(node.body)
-- 
2.43.0


From 6869b9ce1320b0977d753bfae1d4089aea640e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:06 +0000
Subject: [PATCH 45/93] fix: metadata sidecars with tuples or numpy values can
 be read back

---
 src/yapcad/io/meta_yaml.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/io/meta_yaml.py b/src/yapcad/io/meta_yaml.py
index fdd225b..5428ad4 100644
--- a/src/yapcad/io/meta_yaml.py
+++ b/src/yapcad/io/meta_yaml.py
@@ -31,6 +31,16 @@ try:
 except ImportError:
     _YAML_AVAILABLE = False
 
+if _YAML_AVAILABLE:
+    class _SidecarDumper(_yaml.SafeDumper):
+        """Write tuples and numpy values as plain YAML, which safe_load can read."""
+
+    _SidecarDumper.add_representer(tuple, _yaml.SafeDumper.represent_list)
+    _SidecarDumper.add_multi_representer(
+        object,
+        lambda dumper, data: dumper.represent_data(
+            data.tolist() if hasattr(data, "tolist") else str(data)))
+
 try:
     import yapcad
     _YAPCAD_VERSION = getattr(yapcad, "__version__", "unknown")
@@ -116,7 +126,7 @@ def dump_metadata_yaml(
     ordered.update(output)
 
     with open(out_path, "w", encoding="utf-8") as f:
-        _yaml.dump(ordered, f, default_flow_style=False, allow_unicode=True, sort_keys=False)
+        _yaml.dump(ordered, f, Dumper=_SidecarDumper, default_flow_style=False, allow_unicode=True, sort_keys=False)
 
     return str(out_path)
 
-- 
2.43.0


From a32d14a5f2008b4357f6042be0f7dcea9a15312b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:59 +0000
Subject: [PATCH 46/93] fix: reading a solid's or surface's metadata does not
 change it

---
 src/yapcad/metadata.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/metadata.py b/src/yapcad/metadata.py
index d8fb140..3dc39c8 100644
--- a/src/yapcad/metadata.py
+++ b/src/yapcad/metadata.py
@@ -108,9 +108,11 @@ def get_surface_metadata(surface: list, create: bool = False) -> Dict:
     if not issurface(surface):
         raise ValueError('invalid surface passed to get_surface_metadata')
     meta = _ensure_metadata(surface, _SURFACE_META_INDEX, create)
-    if meta is None:
-        return {}
-    entity_id = ensure_surface_id(surface) if create else meta.get("entityId")
+    if not create:
+        # a read leaves the surface as it is: the defaults are not attached
+        stored = len(surface) > _SURFACE_META_INDEX and meta is surface[_SURFACE_META_INDEX]
+        return meta if stored else _ensure_root({})
+    entity_id = ensure_surface_id(surface)
     root = _ensure_root(meta, entity_id)
     if len(surface) <= _SURFACE_META_INDEX:
         surface.append(root)
@@ -161,9 +163,11 @@ def get_solid_metadata(sld: list, create: bool = False) -> Dict:
     if not issolid(sld):
         raise ValueError('invalid solid passed to get_solid_metadata')
     meta = _ensure_metadata(sld, _SOLID_META_INDEX, create)
-    if meta is None:
-        return {}
-    entity_id = ensure_solid_id(sld) if create else meta.get("entityId")
+    if not create:
+        # a read leaves the solid as it is: the defaults are not attached
+        stored = len(sld) > _SOLID_META_INDEX and meta is sld[_SOLID_META_INDEX]
+        return meta if stored else _ensure_root({})
+    entity_id = ensure_solid_id(sld)
     root = _ensure_root(meta, entity_id)
     if len(sld) <= _SOLID_META_INDEX:
         sld.append(root)
-- 
2.43.0


From d00e4505475dc1832ca531074c1403358d1e74ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 47/93] fix: octrees stay with the surface they were built for

---
 src/yapcad/boolean/native.py | 42 ++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/yapcad/boolean/native.py b/src/yapcad/boolean/native.py
index 4132b0f..33b6cf6 100644
--- a/src/yapcad/boolean/native.py
+++ b/src/yapcad/boolean/native.py
@@ -99,11 +99,11 @@ def _candidate_planes_for_triangle(tri, target, tri_plane, tol):
                     candidates.append(elem)
             if not candidates:
                 candidates = list(_iter_triangles_from_surface(surf))
-        meta = _ensure_surface_metadata_dict(surf)
-        orientation = meta.get('_surface_orientation')
+        cache = _surface_cache(surf)
+        orientation = cache.get('orientation')
         if orientation is None:
             orientation = _determine_surface_orientation(surf, target, extent, tol)
-            meta['_surface_orientation'] = orientation
+            cache['orientation'] = orientation
         sense_value = -orientation
         for cand in candidates:
             plane = _triangle_plane(cand)
@@ -139,10 +139,27 @@ def _candidate_planes_for_triangle(tri, target, tri_plane, tol):
 _DEFAULT_RAY_TOL = 1e-7
 
 
+# Data derived from surface meshes, by the identity of the vertex list.  It is
+# kept out of the surface metadata: copies carry that along after they have been
+# moved, and exporters write it.
+_SURFACE_CACHE = {}
+_SURFACE_CACHE_LIMIT = 256
+
+
+def _surface_cache(s):
+    verts, faces = s[1], s[3]
+    entry = _SURFACE_CACHE.get(id(verts))
+    if (entry is None or entry['verts'] is not verts or entry['faces'] is not faces
+            or entry['size'] != (len(verts), len(faces))):
+        while len(_SURFACE_CACHE) >= _SURFACE_CACHE_LIMIT:
+            _SURFACE_CACHE.pop(next(iter(_SURFACE_CACHE)), None)
+        entry = {'verts': verts, 'faces': faces, 'size': (len(verts), len(faces))}
+        _SURFACE_CACHE[id(verts)] = entry
+    return entry
+
+
 def invalidate_surface_octree(s):
-    meta = _ensure_surface_metadata_dict(s)
-    meta.pop('_octree', None)
-    meta['_octree_dirty'] = True
+    _SURFACE_CACHE.pop(id(s[1]), None)
 
 
 def _bbox_overlap(box_a, box_b, tol):
@@ -915,14 +932,12 @@ def _ray_triangle_intersection(origin, direction, triangle, tol=_DEFAULT_RAY_TOL
 
 
 def surface_octree(s, rebuild=False):
-    meta = _ensure_surface_metadata_dict(s)
-    tree = meta.get('_octree')
-    if rebuild or meta.get('_octree_dirty') or tree is None:
+    cache = _surface_cache(s)
+    tree = cache.get('octree')
+    if rebuild or tree is None:
         verts = s[1]
         faces = s[3]
         if not faces:
-            meta['_octree'] = None
-            meta['_octree_dirty'] = False
             return None
         extent = 0.0
         for axis in range(3):
@@ -936,9 +951,8 @@ def surface_octree(s, rebuild=False):
             tri = [verts[face[0]], verts[face[1]], verts[face[2]]]
             tree.addElement(tri)
         tree.updateTree()
-        meta['_octree'] = tree
-        meta['_octree_dirty'] = False
-    return meta['_octree']
+        cache['octree'] = tree
+    return tree
 
 
 def _surface_from_triangles(triangles):
-- 
2.43.0


From a53fb2a28e1e2db8b35dd418b26e2ca9dec3bb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 48/93] fix: a copied matrix does not share rows with the
 original

---
 src/yapcad/xform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/xform.py b/src/yapcad/xform.py
index 126e089..f9398d2 100644
--- a/src/yapcad/xform.py
+++ b/src/yapcad/xform.py
@@ -149,7 +149,7 @@ class Matrix:
             self.m[2][i] = x[2]
             self.m[3][i] = x[3]
         else:
-            self.m[i] = x
+            self.m[i] = list(x)
         
     def setcol(self,j,x):
         if not geom.isvect(x):
@@ -162,7 +162,7 @@ class Matrix:
             self.m[2][j] = x[2]
             self.m[3][j] = x[3]
         else:
-            self.m[j] = x
+            self.m[j] = list(x)
         
 
     # matrix multiply.  If x is a matrix, compute MX.  If x is a
-- 
2.43.0


From 20b9641d9f4d70130e233546c31cdfad997ff0ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 49/93] fix: ViewerConfig.from_dict leaves its argument alone

---
 src/yapcad/viewer/config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/viewer/config.py b/src/yapcad/viewer/config.py
index 7153d4d..7a1eac1 100644
--- a/src/yapcad/viewer/config.py
+++ b/src/yapcad/viewer/config.py
@@ -246,7 +246,8 @@ class ViewerConfig:
         ViewerConfig
             New configuration instance.
         """
-        # Convert lists back to tuples where needed
+        # Convert lists back to tuples where needed, leaving the caller's dict alone
+        data = dict(data)
         if "window_size" in data:
             data["window_size"] = tuple(data["window_size"])
         if "background_color" in data:
-- 
2.43.0


From 302d3aa5a4033704489794ebfbb48636f7aeb65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 50/93] fix: solids do not share the metadata dict passed to
 their constructor

---
 src/yapcad/geom3d_util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index ecf90e8..c94cfbf 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -1223,7 +1223,7 @@ def makeRevolutionSolid(contour, zStart, zEnd, steps, arcSamples=None, chord_err
     call = f"yapcad.geom3d_util.makeRevolutionSolid(contour,{zStart},{zEnd},{steps},{arcSamples})"
     construction = ['procedure', call]
     if metadata is not None and isinstance(metadata, dict):
-        sld = solid([surf], [], construction, metadata)
+        sld = solid([surf], [], construction, dict(metadata))
     else:
         sld = solid([surf], [], construction)
     if brep_shape is not None:
@@ -1609,7 +1609,7 @@ def makeLoftSolid(lower_loop, upper_loop, *, metadata=None):
     call = f"yapcad.geom3d_util.makeLoftSolid(lower_loop, upper_loop)"
     construction = ['procedure', call]
     if metadata is not None and isinstance(metadata, dict):
-        sld = solid([surf], [], construction, metadata)
+        sld = solid([surf], [], construction, dict(metadata))
     else:
         sld = solid([surf], [], construction)
 
@@ -2920,7 +2920,7 @@ def sweep_profile_along_path(profile, spine, *, inner_profile=None, metadata=Non
     construction = ['procedure', call]
 
     if metadata is not None and isinstance(metadata, dict):
-        sld = solid([], [], construction, metadata)
+        sld = solid([], [], construction, dict(metadata))
     else:
         sld = solid([], [], construction)
 
-- 
2.43.0


From 6baedef39ba1870ef03e6f67e9be065f6b6fe541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 51/93] fix: solids do not share the values of a command's
 @meta decorator

---
 src/yapcad/dsl/meta_apply.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/yapcad/dsl/meta_apply.py b/src/yapcad/dsl/meta_apply.py
index e7e4d1e..0b7c01a 100644
--- a/src/yapcad/dsl/meta_apply.py
+++ b/src/yapcad/dsl/meta_apply.py
@@ -60,6 +60,7 @@ the field so callers can fall back to the Python helpers.
 
 from __future__ import annotations
 
+from copy import deepcopy
 from typing import Any, Dict, List, Optional
 
 from yapcad.metadata import (
@@ -269,7 +270,8 @@ def apply_meta_hint(solid: list, meta_hint: Dict[str, Any]) -> None:
     # Get or create the metadata dict for this solid
     meta = get_solid_metadata(solid, create=True)
 
-    for key, value in meta_hint.items():
+    # Solids of different calls must not share the values of one decorator
+    for key, value in deepcopy(meta_hint).items():
         if not isinstance(key, str) or not key:
             continue  # skip malformed keys silently
 
@@ -300,7 +302,8 @@ def apply_meta_hint_to_raw(meta: Dict[str, Any], meta_hint: Dict[str, Any]) -> N
     if not isinstance(meta_hint, dict):
         raise TypeError(f"meta_hint must be a dict, got {type(meta_hint).__name__}")
 
-    for key, value in meta_hint.items():
+    # Solids of different calls must not share the values of one decorator
+    for key, value in deepcopy(meta_hint).items():
         if not isinstance(key, str) or not key:
             continue
 
-- 
2.43.0


From 6062d42fa70b400bcca328f6b205928bef54031b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 52/93] fix: native topology keeps its lengths and reference
 directions when transformed or read back

---
 src/yapcad/native_brep.py | 45 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index e8a8a2d..aca0504 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2047,7 +2047,7 @@ def _serialize_surface_metadata(meta):
         return {}
     result = {}
     for key, value in meta.items():
-        if key in ('normal', 'axis', 'u_axis', 'v_axis'):
+        if key in ('normal', 'axis', 'u_axis', 'v_axis', 'ref_direction'):
             result[key] = list(value) if value else None
         elif key == 'u_range' or key == 'v_range':
             result[key] = list(value) if value else None
@@ -2065,6 +2065,17 @@ def _serialize_surface_metadata(meta):
 
 def _deserialize_surface(data):
     """Reconstruct an analytic surface from serialized data."""
+    surface = _rebuild_surface(data)
+    # The constructors pick reference directions of their own
+    if surface is not None and isinstance(surface[2], dict):
+        for key in ('u_axis', 'v_axis', 'ref_direction'):
+            value = (data.get('metadata') or {}).get(key)
+            if value and key in surface[2]:
+                surface[2][key] = list(value)
+    return surface
+
+
+def _rebuild_surface(data):
     from yapcad.analytic_surfaces import (
         plane_surface, sphere_surface, cylinder_surface,
         cone_surface, torus_surface, bspline_surface, tessellated_surface
@@ -2518,16 +2529,22 @@ def _transform_surface_inplace(surface, transform_fn):
         surface[1] = _transform_point(surface[1], transform_fn)
         if 'axis' in meta:
             meta['axis'] = _transform_vector(meta['axis'], transform_fn)
+        if 'ref_direction' in meta:
+            meta['ref_direction'] = _transform_vector(meta['ref_direction'], transform_fn)
 
     elif surf_type == 'cone_surface':
         surface[1] = _transform_point(surface[1], transform_fn)
         if 'axis' in meta:
             meta['axis'] = _transform_vector(meta['axis'], transform_fn)
+        if 'ref_direction' in meta:
+            meta['ref_direction'] = _transform_vector(meta['ref_direction'], transform_fn)
 
     elif surf_type == 'torus_surface':
         surface[1] = _transform_point(surface[1], transform_fn)
         if 'axis' in meta:
             meta['axis'] = _transform_vector(meta['axis'], transform_fn)
+        if 'ref_direction' in meta:
+            meta['ref_direction'] = _transform_vector(meta['ref_direction'], transform_fn)
 
     elif surf_type == 'bspline_surface':
         # Control points are nested list
@@ -2620,6 +2637,14 @@ def mirror_native_brep(yapcad_solid, plane):
     attach_native_brep_to_solid(yapcad_solid, graph)
 
 
+# Parameter ranges of analytic surfaces that are distances rather than angles
+_LENGTH_RANGES = {
+    'plane_surface': ('u_range', 'v_range'),
+    'cylinder_surface': ('v_range',),
+    'cone_surface': ('v_range',),
+}
+
+
 def scale_native_brep(yapcad_solid, factor, center=None):
     """Apply a uniform scale to native BREP data in a solid.
 
@@ -2651,16 +2676,26 @@ def scale_native_brep(yapcad_solid, factor, center=None):
 
     transform_topology_graph(graph, scale_point)
 
-    # Also update radii in surfaces
+    # Also update lengths in edge curves
+    for eid, edge in graph.edges.items():
+        params = edge[2].get('curve_params', {})
+        for key in ('radius', 'semi_major', 'semi_minor'):
+            if params.get(key) is not None:
+                params[key] = params[key] * abs(f)
+
+    # Also update radii, and parameter ranges that are lengths, in surfaces
     for fid, face in graph.faces.items():
         surface = face[1]
         if surface is not None and isinstance(surface, list) and len(surface) >= 3:
             meta = surface[2] if len(surface) > 2 else {}
             if 'radius' in meta:
-                meta['radius'] = meta['radius'] * f
+                meta['radius'] = meta['radius'] * abs(f)
             if 'major_radius' in meta:
-                meta['major_radius'] = meta['major_radius'] * f
+                meta['major_radius'] = meta['major_radius'] * abs(f)
             if 'minor_radius' in meta:
-                meta['minor_radius'] = meta['minor_radius'] * f
+                meta['minor_radius'] = meta['minor_radius'] * abs(f)
+            for key in _LENGTH_RANGES.get(surface[0], ()):
+                if meta.get(key):
+                    meta[key] = tuple(value * abs(f) for value in meta[key])
 
     attach_native_brep_to_solid(yapcad_solid, graph)
-- 
2.43.0


From 6715c33ca3dcf55f1a5ec7bd67a9430e9534ad4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 53/93] fix: Geometry mirrors and scales solids, transforms
 BREPs and drops stale surfaces

---
 src/yapcad/geometry.py | 68 ++++++++----------------------------------
 1 file changed, 13 insertions(+), 55 deletions(-)

diff --git a/src/yapcad/geometry.py b/src/yapcad/geometry.py
index 38dacd5..c8ce064 100644
--- a/src/yapcad/geometry.py
+++ b/src/yapcad/geometry.py
@@ -98,8 +98,6 @@ from yapcad.brep import (
     BrepSolid,
     require_occ,
     has_brep_data,
-    scale_brep_solid,
-    attach_brep_to_solid,
     brep_from_solid,
 )
 
@@ -351,34 +349,10 @@ class Geometry:
                 raise NotImplementedError("Solid scaling currently supports uniform factors only")
             if sz not in (False, None) and not close(sz, sx):
                 raise NotImplementedError("Solid scaling currently supports uniform factors only")
-            if has_brep_data(self.__elem):
-                scale_brep_solid(self.__elem, sx, cent)
-                self.__elem = _retessellate_brep_solid(self.__elem) or self.__elem
-                self._clearSurfaceCache()
-                self._setUpdate(True)
-                return
-            # fallback: scale vertices of each surface (uniform only)
-            def _scale_point(p):
-                return point(
-                    cent[0] + sx * (p[0] - cent[0]),
-                    cent[1] + sx * (p[1] - cent[1]),
-                    cent[2] + sx * (p[2] - cent[2]),
-                )
-            new_surfaces = []
-            for surf in self.__elem[1]:
-                new_pts = [_scale_point(v) for v in surf[1]]
-                new_surf = [new_pts, list(deepcopy(surf[2])), list(deepcopy(surf[3]))]
-                # boundaries/holes/metadata if present
-                if len(surf) > 4:
-                    new_surf.append(deepcopy(surf[4]))
-                if len(surf) > 5:
-                    new_surf.append(deepcopy(surf[5]))
-                if len(surf) > 6:
-                    new_surf.append(deepcopy(surf[6]))
-                new_surfaces.append(new_surf)
-            meta = self.__elem[3] if len(self.__elem) > 3 else []
-            self._setElem(['solid', new_surfaces, [] , meta])
+            from yapcad.geom3d import scalesolid
+            self._setElem(scalesolid(self.__elem, sx, cent=cent))
             self._setUpdate(True)
+            self._clearSurfaceCache()
             return
         if is_brep(self.__elem):
             require_occ()
@@ -440,17 +414,8 @@ class Geometry:
 
         """
         if issolid(self.__elem, fast=False):
-            try:
-                from yapcad.brep import mirror_brep_solid
-                mirror_brep_solid(self.__elem, plane)
-                self.__elem = _retessellate_brep_solid(self.__elem) or self.__elem
-                self._clearSurfaceCache()
-                self._setUpdate(True)
-                return
-            except Exception:
-                pass
-            from yapcad.geom3d import mirror as mirror_solid
-            self._setElem(mirror_solid(self.__elem, plane))
+            from yapcad.geom3d import mirrorsolid
+            self._setElem(mirrorsolid(self.__elem, plane))
             self._setUpdate(True)
             self._clearSurfaceCache()
             return
@@ -481,6 +446,12 @@ class Geometry:
                 trsf = _matrix_to_trsf(m)
             except ValueError as exc:
                 raise NotImplementedError("Matrix transforms must be 4x4 lists for BREP geometry") from exc
+            from yapcad.brep import transform_brep_shape
+            transformed = transform_brep_shape(self.__elem, trsf)
+            if transformed:
+                self.__elem = transformed
+                self._clearSurfaceCache()
+                self._setUpdate(True)
             return
         self._setElem(transform(self.elem,m))
         self._setUpdate(True)
@@ -555,6 +526,8 @@ class Geometry:
     def _setUpdate(self,bln):
         """method to set status of __update, accessible from derived classes"""
         self.__update = bln
+        if bln:
+            self._clearSurfaceCache()
 
     @update.setter
     def update(self,bln):
@@ -745,19 +718,4 @@ def Arc(c,rp=False,sn=False,e=False,n=False,samplereverse=False):
 def Figure(*args):
     return Geometry(list(*args))
 
-# helper to rebuild a tessellated solid from its BREP metadata
-def _retessellate_brep_solid(sld: list):
-    if not has_brep_data(sld):
-        return None
-    brep = brep_from_solid(sld)
-    if brep is None:
-        return None
-    surf = brep.tessellate()
-    voids = sld[2] if len(sld) > 2 else []
-    meta = sld[3] if len(sld) > 3 else []
-    new_solid = ['solid', [surf], voids, meta]
-    attach_brep_to_solid(new_solid, brep)
-    return new_solid
-
-
                     
-- 
2.43.0


From c75438ad58b779b9fd0472bd79198ca55d49ed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 54/93] fix: scaling about a centre leaves the centre where it
 is

---
 src/yapcad/geom.py   | 4 ++--
 src/yapcad/geom3d.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 9465a2a..f2b49d9 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -4136,9 +4136,9 @@ def scale(x,sx=1.0,sy=False,sz=False,cent=point(0,0),mat=False):
         if vclose(cent,point(0,0,0)):
             mat = xform.Scale(sx,sy,sz)
         else:
-            mat = xform.Translation(cent,inverse=True)
+            mat = xform.Translation(cent)
             mat = mat.mul(xform.Scale(sx,sy,sz))
-            mat = mat.mul(xform.Translation(cent))
+            mat = mat.mul(xform.Translation(cent,inverse=True))
 
     if ispoint(x):
         return mat.mul(x)
diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 5343f5c..aa2cc5b 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -702,9 +702,9 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
     if vclose(cent, point(0,0,0)):
         mat = xform.Scale(sx, sy, sz)
     else:
-        mat = xform.Translation(cent, inverse=True)
+        mat = xform.Translation(cent)
         mat = mat.mul(xform.Scale(sx, sy, sz))
-        mat = mat.mul(xform.Translation(cent))
+        mat = mat.mul(xform.Translation(cent, inverse=True))
 
     s2 = deepcopy(s)
     # Transform vertices
-- 
2.43.0


From d983e3fbcdac4826fd1d7f11dee03850d7573e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 55/93] fix: a solid keeps no BREP that did not follow its
 transformation

---
 src/yapcad/brep.py                 | 20 ++++++++++++--------
 src/yapcad/dsl/runtime/builtins.py | 16 ++++++++++------
 src/yapcad/geom3d.py               |  6 ++++++
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/src/yapcad/brep.py b/src/yapcad/brep.py
index 35ef4aa..616c1e4 100644
--- a/src/yapcad/brep.py
+++ b/src/yapcad/brep.py
@@ -180,6 +180,7 @@ def has_brep_data(solid: list) -> bool:
 def translate_brep_solid(solid: list, delta) -> None:
     """Apply a translation to the stored BREP shape if present."""
     if not occ_available() or gp_Trsf is None or gp_Vec is None:
+        _clear_brep_data(solid)
         return
     dx = float(delta[0]) if len(delta) > 0 else 0.0
     dy = float(delta[1]) if len(delta) > 1 else 0.0
@@ -191,6 +192,7 @@ def translate_brep_solid(solid: list, delta) -> None:
 
 def rotate_brep_solid(solid: list, ang: float, center, axis) -> None:
     if not occ_available() or gp_Trsf is None or gp_Pnt is None or gp_Ax1 is None or gp_Dir is None:
+        _clear_brep_data(solid)
         return
     ax = axis or point(0, 0, 1)
     magnitude = math.sqrt(ax[0] ** 2 + ax[1] ** 2 + ax[2] ** 2)
@@ -204,6 +206,7 @@ def rotate_brep_solid(solid: list, ang: float, center, axis) -> None:
 
 def mirror_brep_solid(solid: list, plane: str) -> None:
     if not occ_available() or gp_Trsf is None or gp_Ax2 is None or gp_Dir is None or gp_Pnt is None:
+        _clear_brep_data(solid)
         return
     mapping = {
         'xy': (0.0, 0.0, 1.0),
@@ -220,6 +223,7 @@ def mirror_brep_solid(solid: list, plane: str) -> None:
 
 def scale_brep_solid(solid: list, factor: float, center=None) -> None:
     if not occ_available() or gp_Trsf is None or gp_Pnt is None:
+        _clear_brep_data(solid)
         return
     if center is None:
         center = point(0, 0, 0)
@@ -230,6 +234,7 @@ def scale_brep_solid(solid: list, factor: float, center=None) -> None:
 
 def _apply_trsf_to_brep(solid: list, trsf) -> None:
     if not occ_available() or BRepBuilderAPI_Transform is None:
+        _clear_brep_data(solid)
         return
     brep = brep_from_solid(solid)
     if brep is None:
@@ -290,6 +295,7 @@ def apply_matrix_to_brep_solid(solid: list, matrix) -> None:
         the BREP to be dropped.
     """
     if not occ_available() or gp_Trsf is None:
+        _clear_brep_data(solid)
         return
 
     brep = brep_from_solid(solid)
@@ -335,20 +341,18 @@ def apply_matrix_to_brep_solid(solid: list, matrix) -> None:
 
         _apply_trsf_to_brep(solid, trsf)
     except Exception:
-        # If matrix conversion fails, BREP is not updated
-        pass
+        # If matrix conversion fails, the BREP cannot follow the solid
+        _clear_brep_data(solid)
 
 
 def _clear_brep_data(solid: list) -> None:
     """Remove BREP data from a solid to avoid stale/inconsistent state."""
     meta = get_solid_metadata(solid, create=False)
-    if meta is None:
+    if not meta or 'brep' not in meta:
         return
-    solid_id = meta.get('entityId')
-    if solid_id and solid_id in _BREP_SOLID_CACHE:
-        del _BREP_SOLID_CACHE[solid_id]
-    if 'brep' in meta:
-        del meta['brep']
+    # A copy shares the entity ID, and with it the cached shape, of its original
+    _regenerate_solid_id(solid)
+    del meta['brep']
 
 
 class BrepVertex:
diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 5318193..355b251 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -492,7 +492,7 @@ class BuiltinRegistry:
 
         def _apply(t: Value, shape: Value) -> Value:
             """Apply a transform to a shape (solid, surface, point, etc.)."""
-            from yapcad.geom3d import issolid, issurface, rotatesolid, rotatesurface
+            from yapcad.geom3d import issolid, issurface, rotatesurface
             from yapcad.geom import ispoint, isvect, transform as geom_transform
             from yapcad.geom import point
             from copy import deepcopy
@@ -503,18 +503,22 @@ class BuiltinRegistry:
 
             # Handle solids by applying matrix to each surface
             if shape_type == SOLID or issolid(data):
-                # Use rotatesolid with the pre-computed matrix
+                # Use rotatesurface with the pre-computed matrix
                 # We pass a tiny non-zero angle to avoid early return, but the
                 # actual transformation is done entirely by the provided matrix
-                result = rotatesolid(data, 0.001, cent=point(0, 0, 0),
-                                    axis=point(0, 0, 1.0), mat=mat)
-                # Apply the matrix transformation to BREP data as well
-                # (rotatesolid only applies the rotation from ang/axis, not mat)
+                result = deepcopy(data)
+                result[1] = [rotatesurface(surf, 0.001, cent=point(0, 0, 0),
+                                           axis=point(0, 0, 1.0), mat=mat)
+                             for surf in data[1]]
+                # Apply the matrix transformation to BREP data as well, and drop
+                # the native topology, which cannot follow an arbitrary matrix
                 try:
                     from yapcad.brep import apply_matrix_to_brep_solid
                     apply_matrix_to_brep_solid(result, mat)
                 except ImportError:
                     pass
+                from yapcad.native_brep import clear_native_brep
+                clear_native_brep(result)
                 return solid_val(result)
 
             # Handle surfaces
diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index aa2cc5b..1bc1557 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -956,6 +956,12 @@ def scalesolid(x, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
             scale_native_brep(s2, sx, cent)
         except ImportError:
             pass
+    else:
+        # Neither representation can follow, so keep only the mesh
+        from yapcad.brep import _clear_brep_data
+        from yapcad.native_brep import clear_native_brep
+        _clear_brep_data(s2)
+        clear_native_brep(s2)
 
     return s2
 
-- 
2.43.0


From 1792656d08af48d02d132ba8b226ec57e9aeb0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:10 +0000
Subject: [PATCH 56/93] fix: depth-0 sphere surfaces do not share the module's
 icosahedron faces

---
 src/yapcad/geom3d_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index c94cfbf..e5ba08f 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -273,7 +273,7 @@ def sphereSurface(diameter,center=point(0,0,0),depth=2):
     ## subdivision works only when center is origin, so we add
     ## any center offset after we subdivide
     verts,normals = makeIcoPoints(point(0,0,0),rad)
-    faces = icaIndices
+    faces = [list(f) for f in icaIndices]
 
     for i in range(depth):
         ff = []
-- 
2.43.0


From a2edb55231949d7d5e47521f667e9523e9747687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:52 +0000
Subject: [PATCH 57/93] fix: reversing and back-to-front slicing of polylines,
 and reversing an arc twice

---
 src/yapcad/geom.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index f2b49d9..df2927f 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3201,7 +3201,7 @@ def segmentpoly(a,u1,u2):
         if u1 < 0 or u2 < 0 or u1 > 1 or u2 > 1:
             raise ValueError('parameters fall outside 0,1 interval: {},{}'.format(u1,u2))
     if u2 < u1:
-        a = deepcopy(a).reverse()
+        a = deepcopy(a)[::-1]
         u1 = 1.0-u1
         u2 = 1.0-u2
         
@@ -3504,11 +3504,10 @@ def reverseGeomList(gl):
             rgl.insert(0,line(g[1],g[0]))
         elif isarc(g):
             c = deepcopy(g)
-            c[1][3] = -2 # set samplereverse flag
+            c[1][3] = -1 if c[1][3] == -2 else -2 # flip samplereverse flag
             rgl.insert(0,c)
         elif ispoly(g):
-            ply = deepcopy(g).reverse()
-            rgl.insert(0,ply)
+            rgl.insert(0,deepcopy(g)[::-1])
         elif isgeomlist(g):
             rgl.insert(0,reverseGeomList(g))
         else:
-- 
2.43.0


From 79c2f8681e7923264f1fa442c0ca1977f1957db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:04 +0000
Subject: [PATCH 58/93] fix: sampling polylines and geometry lists that contain
 zero-length elements

---
 src/yapcad/geom.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index df2927f..e258b3b 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3161,6 +3161,8 @@ def samplepoly(a,u):
     closed=False
 
     lines,lengths,length = __lineslength(a)
+    if length == 0:
+        raise ValueError('zero-length poly passed to samplepoly')
     if len(a) > 2 and dist(a[0],a[-1]) < epsilon:
         closed = True
 
@@ -3172,14 +3174,15 @@ def samplepoly(a,u):
     if u < 1.0:
         for i in range(len(lines)):
             l=lengths[i]
-            if dst <= d+l:
+            if l > 0 and dst <= d+l:
                 uu = 1.0 - (d+l-dst)/l
                 return sampleline(lines[i],uu)
             else:
                 d+=l
     else:
-        uu = (dst-length+lengths[-1])/lengths[-1]
-        return sampleline(lines[-1],uu)
+        i = max(j for j in range(len(lines)) if lengths[j] > 0)
+        uu = (dst-length+lengths[i])/lengths[i]
+        return sampleline(lines[i],uu)
 
 def segmentpoly(a,u1,u2):
     """slice out a parameterized segment from polyline or polygon ``a``
@@ -3436,20 +3439,23 @@ def samplegeomlist(gl,u):
         raise ValueError('non-geomlist passed to samplegeomlist')
     
     lengths,leng = __geomlistlength(gl)
+    if leng == 0:
+        raise ValueError('zero-length geometry list passed to samplegeomlist')
         
     dst = u * leng
     d = 0
     if u < 1.0:
         for i in range(len(gl)):
             l=lengths[i]
-            if dst <= d+l:
+            if l > 0 and dst <= d+l:
                 uu = 1.0 - (d+l-dst)/l
                 return sample(gl[i],uu)
             else:
                 d+=l
     else:
-        uu = (dst-leng+lengths[-1])/lengths[-1]
-        return sample(gl[-1],uu)
+        i = max(j for j in range(len(gl)) if lengths[j] > 0)
+        uu = (dst-leng+lengths[i])/lengths[i]
+        return sample(gl[i],uu)
 
 
 def unsamplegeomlist(gl,p):
-- 
2.43.0


From 140b690f58d0b70594c3919ba300088a3deae212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:56 +0000
Subject: [PATCH 59/93] fix: planarity test, polygons and splines do not pass
 over unknown elements

---
 src/yapcad/geom.py      | 2 ++
 src/yapcad/geom_util.py | 2 +-
 src/yapcad/poly.py      | 4 ++++
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index e258b3b..6de79bc 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -3648,6 +3648,8 @@ def isgeomlistXYPlanar(gl):
         elif isgeomlist(g):
             if not isgeomlistXYPlanar(g):
                 return False
+        else:
+            pp = pp + [ sample(g,i/16.0) for i in range(17) ]
     return isXYPlanar(pp)
 
 ## compute the intersection between coplanar geometric element g, and geometry
diff --git a/src/yapcad/geom_util.py b/src/yapcad/geom_util.py
index 63616ad..5cdec6b 100644
--- a/src/yapcad/geom_util.py
+++ b/src/yapcad/geom_util.py
@@ -244,7 +244,7 @@ def _spline_segments_from_curve(curve, minlen):
         count = int(meta.get('samples', default))
         samples = sample_nurbs(curve, samples=max(4, count))
         return _points_to_segments(samples, closed=False)
-    return []
+    raise ValueError(f'not a spline curve: {curve}')
 
 def _collect_candidate_polygons(gl, minang, minlen, snap_tol):
     """Return raw polygon loops discovered within ``gl``."""
diff --git a/src/yapcad/poly.py b/src/yapcad/poly.py
index 82a198e..7d092b6 100644
--- a/src/yapcad/poly.py
+++ b/src/yapcad/poly.py
@@ -290,6 +290,8 @@ class Polygon(Geometry):
                 
                 if not ispoint(e2):
                     self.__outline.append(deepcopy(e2))
+            else:
+                raise ValueError('bad object in element list')
 
         ## OK, now go back through and replace full circles with arcs
         ## and catch any intersecting lines due to non-convex
@@ -383,6 +385,8 @@ class Polygon(Geometry):
                         ne.append(arc(p,r))
                 elif isgeomlist(e):
                     ne += _growgeom(e)
+                else:
+                    raise ValueError('cannot grow geometry: {}'.format(e))
             return ne
         self._setElem(_growgeom(self.elem))
         self._setUpdate(True)
-- 
2.43.0


From d731aa9b46f402bb36d08e7569e4e594c012ba7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:56 +0000
Subject: [PATCH 60/93] fix: wires built from regions and paths raise instead
 of leaving out segments

---
 src/yapcad/geom3d_util.py              | 47 +++++++++++++++++---------
 src/yapcad/manufacturing/path_utils.py |  6 ++++
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index e5ba08f..08be7f2 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -2133,7 +2133,7 @@ def _sample_path3d(path3d, samples_per_segment=20):
             normal = seg.get('normal', [0, 0, 1])
             seg_samples = _sample_arc_segment(center, start, end, normal, samples_per_segment)
         else:
-            continue
+            raise ValueError(f"unknown path3d segment type: {seg_type}")
 
         # Adjust parameters to global range
         for point, tangent, local_t in seg_samples:
@@ -2374,9 +2374,12 @@ def sweep_adaptive(profile, spine, *, inner_profiles=None,
                 arc_center = gp_Pnt(cx, 0, cy)
                 circ = gp_Circ(gp_Ax2(arc_center, gp_Dir(0, 1, 0)), radius)
                 arc_maker = GC_MakeArcOfCircle(circ, start_pt, end_pt, True)
-                if arc_maker.IsDone():
-                    edge = BRepBuilderAPI_MakeEdge(arc_maker.Value()).Edge()
-                    wire_builder.Add(edge)
+                if not arc_maker.IsDone():
+                    raise RuntimeError("Failed to build arc of region2d")
+                edge = BRepBuilderAPI_MakeEdge(arc_maker.Value()).Edge()
+                wire_builder.Add(edge)
+            else:
+                raise ValueError("region2d profiles may contain only lines and arcs here")
         return wire_builder.Wire()
 
     def _transform_wire_to_frame(wire, position, tangent, right, up):
@@ -2617,9 +2620,12 @@ def extrude_region2d(profile, height, *, direction=None, metadata=None):
             arc_center = gp_Pnt(cx, cy, 0)
             circ = gp_Circ(gp_Ax2(arc_center, gp_Dir(0, 0, 1)), radius)
             arc_maker = GC_MakeArcOfCircle(circ, start_pt, end_pt, True)
-            if arc_maker.IsDone():
-                edge = BRepBuilderAPI_MakeEdge(arc_maker.Value()).Edge()
-                wire_builder.Add(edge)
+            if not arc_maker.IsDone():
+                raise RuntimeError("Failed to build arc of region2d")
+            edge = BRepBuilderAPI_MakeEdge(arc_maker.Value()).Edge()
+            wire_builder.Add(edge)
+        else:
+            raise ValueError("region2d profiles may contain only lines and arcs here")
 
     if not wire_builder.IsDone():
         raise RuntimeError("Failed to build wire from region2d")
@@ -2742,9 +2748,12 @@ def sweep_profile_along_path(profile, spine, *, inner_profile=None, metadata=Non
                 arc_center = gp_Pnt(cx, 0, cy)
                 circ = gp_Circ(gp_Ax2(arc_center, gp_Dir(0, 1, 0)), radius)
                 arc_maker = GC_MakeArcOfCircle(circ, start_pt, end_pt, True)
-                if arc_maker.IsDone():
-                    edge = BRepBuilderAPI_MakeEdge(arc_maker.Value()).Edge()
-                    wire_builder.Add(edge)
+                if not arc_maker.IsDone():
+                    raise RuntimeError("Failed to build arc of region2d")
+                edge = BRepBuilderAPI_MakeEdge(arc_maker.Value()).Edge()
+                wire_builder.Add(edge)
+            else:
+                raise ValueError("region2d profiles may contain only lines and arcs here")
         return wire_builder.Wire()
 
     # Build outer profile wire
@@ -2810,9 +2819,12 @@ def sweep_profile_along_path(profile, spine, *, inner_profile=None, metadata=Non
 
             circ = gp_Circ(gp_Ax2(arc_center, arc_normal), radius)
             arc_maker = GC_MakeArcOfCircle(circ, arc_start, arc_end, True)
-            if arc_maker.IsDone():
-                edge = BRepBuilderAPI_MakeEdge(arc_maker.Value()).Edge()
-                spine_wire.Add(edge)
+            if not arc_maker.IsDone():
+                raise RuntimeError("Failed to build arc of path3d")
+            edge = BRepBuilderAPI_MakeEdge(arc_maker.Value()).Edge()
+            spine_wire.Add(edge)
+        else:
+            raise ValueError(f"unknown path3d segment type: {seg_type}")
 
     spine = spine_wire.Wire()
 
@@ -3089,9 +3101,12 @@ def helical_extrude(profile, height, twist_angle_deg, *,
                 arc_center = gp_Pnt(cx, cy, 0)
                 circ = gp_Circ(gp_Ax2(arc_center, gp_Dir(0, 0, 1)), radius)
                 arc_maker = GC_MakeArcOfCircle(circ, start_pt, end_pt, True)
-                if arc_maker.IsDone():
-                    edge = BRepBuilderAPI_MakeEdge(arc_maker.Value()).Edge()
-                    wire_builder.Add(edge)
+                if not arc_maker.IsDone():
+                    raise RuntimeError("Failed to build arc of region2d")
+                edge = BRepBuilderAPI_MakeEdge(arc_maker.Value()).Edge()
+                wire_builder.Add(edge)
+            else:
+                raise ValueError("region2d profiles may contain only lines and arcs here")
 
         if not wire_builder.IsDone():
             raise RuntimeError("Failed to build wire from region2d")
diff --git a/src/yapcad/manufacturing/path_utils.py b/src/yapcad/manufacturing/path_utils.py
index a0463b9..35a4819 100644
--- a/src/yapcad/manufacturing/path_utils.py
+++ b/src/yapcad/manufacturing/path_utils.py
@@ -298,6 +298,9 @@ def extract_sub_path(
                 'normal': normal
             })
 
+        else:
+            raise ValueError(f"Unknown segment type: {seg_type}")
+
     return {'segments': new_segments}
 
 
@@ -346,6 +349,9 @@ def path_length(path3d: Dict[str, Any]) -> float:
 
             total += radius * angle
 
+        else:
+            raise ValueError(f"Unknown segment type: {seg_type}")
+
     return total
 
 
-- 
2.43.0


From cf6ebefc58e67679821be4ffb12927698497f240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:56 +0000
Subject: [PATCH 61/93] fix: area, perimeter and loft account for arcs, curves
 and holes

---
 src/yapcad/dsl/runtime/builtins.py | 74 +++++++++++++-----------------
 1 file changed, 32 insertions(+), 42 deletions(-)

diff --git a/src/yapcad/dsl/runtime/builtins.py b/src/yapcad/dsl/runtime/builtins.py
index 355b251..1c991aa 100644
--- a/src/yapcad/dsl/runtime/builtins.py
+++ b/src/yapcad/dsl/runtime/builtins.py
@@ -1801,7 +1801,7 @@ class BuiltinRegistry:
             """
             from yapcad.geom3d_util import makeLoftSolid
             from yapcad.geom3d import solid_boolean
-            from yapcad.geom import sample as geom_sample, isline, isarc
+            from yapcad.geom import sample as geom_sample, isline
 
             profile_list = []
             for p in profiles.data:
@@ -1820,9 +1820,11 @@ class BuiltinRegistry:
                     if isline(seg):
                         p = seg[0]
                         pts.append(make_point(p[0], p[1], p[2] if len(p) > 2 else 0))
-                    elif isarc(seg):
-                        p = geom_sample(seg, 0)
-                        pts.append(make_point(p[0], p[1], p[2] if len(p) > 2 else 0))
+                    else:
+                        # Arcs and other curves: follow them in 16 steps
+                        for i in range(16):
+                            p = geom_sample(seg, i / 16.0)
+                            pts.append(make_point(p[0], p[1], p[2] if len(p) > 2 else 0))
                 return pts
 
             loops = [profile_to_loop(p) for p in profile_list]
@@ -2781,63 +2783,51 @@ class BuiltinRegistry:
             from yapcad.geom3d import surfacearea
             return float_val(sum(surfacearea(surf) for surf in s.data[1]))
 
-        def _area(r: Value) -> Value:
-            """Calculate area of a region2d using shoelace formula."""
-            from yapcad.geom import isgeomlist, isline, ispoint
+        def _loop_area(loop) -> float:
+            """Area enclosed by one boundary, using the shoelace formula."""
+            from yapcad.geom import dist, isline, ispoint, sample
 
-            data = r.data
-            if not isgeomlist(data):
-                return float_val(0.0)
-
-            # Sample all segments into points
             points = []
-            for seg in data:
+            for seg in loop:
                 if isline(seg):
-                    p = seg[0]  # Start point of line segment
-                    if ispoint(p):
-                        points.append(p)
+                    points.append(seg[0])  # Start point of line segment
                 elif ispoint(seg):
                     points.append(seg)
+                else:
+                    # Arcs and other curves: sample along the boundary's direction
+                    curve = [sample(seg, i / 64.0) for i in range(65)]
+                    if points and dist(curve[-1], points[-1]) < dist(curve[0], points[-1]):
+                        curve.reverse()
+                    points.extend(curve)
 
-            if len(points) < 3:
-                return float_val(0.0)
-
-            # Shoelace formula for polygon area
             n = len(points)
             area = 0.0
             for i in range(n):
                 j = (i + 1) % n
                 area += points[i][0] * points[j][1]
                 area -= points[j][0] * points[i][1]
-            area = abs(area) / 2.0
+            return abs(area) / 2.0
 
-            return float_val(area)
+        def _area(r: Value) -> Value:
+            """Calculate area of a region2d, without its holes."""
+            from yapcad.geom import isarc, isgeomlist, isline
+
+            data = r.data
+            if not isgeomlist(data):
+                raise ValueError("area requires a region2d")
+            if data and all(isgeomlist(loop) and not isline(loop) and not isarc(loop) for loop in data):
+                # A region with holes is a list of boundaries, the outer one first
+                return float_val(_loop_area(data[0]) - sum(_loop_area(hole) for hole in data[1:]))
+            return float_val(_loop_area(data))
 
         def _perimeter(r: Value) -> Value:
             """Calculate perimeter of a region2d as sum of segment lengths."""
-            from yapcad.geom import isgeomlist, isline, ispoint, length
-            import math
+            from yapcad.geom import isgeomlist, length
 
             data = r.data
             if not isgeomlist(data):
-                return float_val(0.0)
-
-            total_length = 0.0
-            for seg in data:
-                if isline(seg):
-                    # Line segment - compute length directly
-                    p1, p2 = seg[0], seg[1]
-                    dx = p2[0] - p1[0]
-                    dy = p2[1] - p1[1]
-                    total_length += math.sqrt(dx*dx + dy*dy)
-                else:
-                    # For arcs or other curves, use the length function
-                    try:
-                        total_length += length(seg)
-                    except:
-                        pass
-
-            return float_val(total_length)
+                raise ValueError("perimeter requires a region2d")
+            return float_val(sum((length(seg) for seg in data), 0.0))
 
         def _centroid(s: Value) -> Value:
             """Compute centroid of a solid.
-- 
2.43.0


From 7d086c3b32670ccb61eaa385f636d44d6edabf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:56 +0000
Subject: [PATCH 62/93] fix: sketches with unknown elements are refused instead
 of written or read without them

---
 src/yapcad/io/geometry_json.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 73c0a4a..30ddece 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -308,6 +308,8 @@ def _serialize_sketch(geomlist: list, metadata_override: Optional[Dict[str, Any]
             if coords:
                 poly_vectors.append(coords)
                 primitives.append({"kind": "polyline", "points": coords})
+        else:
+            raise ValueError(f"cannot serialize sketch element: {element}")
 
     box = bbox2d(geomlist)
     if box:
@@ -552,6 +554,8 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                             knots=knots,
                         )
                     )
+                else:
+                    raise ValueError(f"unknown sketch primitive kind: {kind}")
             if elements:
                 geomlists.append(elements)
                 continue
-- 
2.43.0


From 493037a9a51526177824ee6a1e15a09ae5e41e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:56 +0000
Subject: [PATCH 63/93] fix: ycpkg_export writes ellipses and refuses unknown
 sketch elements

---
 tools/ycpkg_export.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/ycpkg_export.py b/tools/ycpkg_export.py
index ca4934b..71d78f8 100644
--- a/tools/ycpkg_export.py
+++ b/tools/ycpkg_export.py
@@ -14,6 +14,7 @@ from yapcad.geom import (
     isgeomlist,
     isline,
     isarc,
+    isellipse,
     iscircle,
     ispoint,
     iscatmullrom,
@@ -122,7 +123,7 @@ def _export_sketches_dxf(sketches: Iterable[Sequence], out_path: Path) -> Path:
                 dxfattribs={"layer": layer},
             )
             return 1
-        if iscatmullrom(element) or isnurbs(element):
+        if iscatmullrom(element) or isnurbs(element) or isellipse(element):
             segs = 64
             coords = [_as_xy(sample(element, i / segs)) for i in range(segs + 1)]
             closed = False
@@ -151,7 +152,7 @@ def _export_sketches_dxf(sketches: Iterable[Sequence], out_path: Path) -> Path:
                 return 0
             msp.add_lwpolyline(coords, format="xy", close=close, dxfattribs={"layer": layer})
             return 1
-        return 0
+        raise ValueError(f"cannot export sketch element: {element}")
 
     for idx, geom in enumerate(sketches, 1):
         layer_name = f"SKETCH_{idx:02d}"
-- 
2.43.0


From 950b8b4971b73ee45f8fb15554e794cb0b16ed58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:52 +0000
Subject: [PATCH 64/93] fix: a cut point's connector length overrides the
 computed one

---
 src/yapcad/manufacturing/segmentation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/yapcad/manufacturing/segmentation.py b/src/yapcad/manufacturing/segmentation.py
index 8eed60f..e8fe3c6 100644
--- a/src/yapcad/manufacturing/segmentation.py
+++ b/src/yapcad/manufacturing/segmentation.py
@@ -493,6 +493,8 @@ def segment_swept_element(
                 provenance.spine,
                 fit_clearance=cut_point.fit_clearance,
             )
+            if cut_point.connector_length is not None:
+                conn_spec.length = cut_point.connector_length
 
             if union_connectors and cut_point.union_connector_with != "none":
                 # Build actual connector solid
-- 
2.43.0


From 1703ffdaffdc2d93f2067161cd0867d0dfeb51d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:41 +0000
Subject: [PATCH 65/93] fix: mirroring arcs in z, scaling them by negative
 factors, and scaling x and y only

---
 src/yapcad/geom.py   | 13 ++++++++++---
 src/yapcad/geom3d.py |  6 ++++++
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 6de79bc..a7a4001 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -4135,8 +4135,11 @@ def translate(x,delta):
 
 def scale(x,sx=1.0,sy=False,sz=False,cent=point(0,0),mat=False):
     """ return a scaled version of the figure"""
-    if sy == False and sz == False:
+    if sy is False and sz is False:
         sy = sz = sx
+    # with one of the factors given, the other axis keeps its size
+    sy = 1.0 if sy is False else sy
+    sz = 1.0 if sz is False else sz
     if vclose(point(sx,sy,sz),point(1.0,1.0,1.0)):
         return deepcopy(x)
     if not mat:
@@ -4157,7 +4160,11 @@ def scale(x,sx=1.0,sy=False,sz=False,cent=point(0,0),mat=False):
         if not close(sx,sy):
             raise ValueError('asymmetric scaling of XY-plane arcs not allowed')
         c[0] = mat.mul(x[0])
-        c[1][0] *= sx
+        c[1][0] *= abs(sx)
+        if sx < 0 and not iscircle(c):
+            # negating x and y is half a turn in the XY plane
+            c[1][1] += 180
+            c[1][2] += 180
         return c
 
     elif ispoly(x):
@@ -4278,7 +4285,7 @@ def mirror(x,plane):
         a2[0] = mul(x[0],flip)
         start = x[1][1]
         end  = x[1][2]
-        if not (start == 0 and end == 360):
+        if plane != 'xy' and not (start == 0 and end == 360):
             ## mirror the arc segment
             ps = point(cos(start*pi2/360.0),sin(start*pi2/360.0))
             pe = point(cos(end*pi2/360.0),sin(end*pi2/360.0))
diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 1bc1557..0f14cbb 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -695,6 +695,9 @@ def scalesurface(s, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
     """
     if sy is False and sz is False:
         sy = sz = sx
+    # with one of the factors given, the other axis keeps its size
+    sy = 1.0 if sy is False else sy
+    sz = 1.0 if sz is False else sz
     if vclose(point(sx, sy, sz), point(1.0, 1.0, 1.0)):
         return deepcopy(s)
 
@@ -934,6 +937,9 @@ def scalesolid(x, sx=1.0, sy=False, sz=False, cent=point(0,0,0)):
         raise ValueError('bad solid passed to scalesolid')
     if sy is False and sz is False:
         sy = sz = sx
+    # with one of the factors given, the other axis keeps its size
+    sy = 1.0 if sy is False else sy
+    sz = 1.0 if sz is False else sz
     if vclose(point(sx, sy, sz), point(1.0, 1.0, 1.0)):
         return deepcopy(x)
 
-- 
2.43.0


From 50f52ced17c4df6aafcbc951761150c2e6b4a78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:51 +0000
Subject: [PATCH 66/93] fix: solids rotated by a given matrix, and mirrored
 native arcs

---
 src/yapcad/geom3d.py      | 7 +++++++
 src/yapcad/native_brep.py | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index 0f14cbb..f8c879d 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -872,6 +872,13 @@ def rotatesolid(x,ang,cent=point(0,0,0),axis=point(0,0,1.0),mat=False):
     for s in x[1]:
         surfs.append(rotatesurface(s,ang,cent=cent,axis=axis,mat=mat))
     s2[1] = surfs
+    if mat:
+        # the surfaces follow the given matrix, so nothing may follow the angle
+        from yapcad.brep import apply_matrix_to_brep_solid
+        from yapcad.native_brep import clear_native_brep
+        apply_matrix_to_brep_solid(s2, mat)
+        clear_native_brep(s2)
+        return s2
     try:
         from yapcad.brep import rotate_brep_solid
         rotate_brep_solid(s2, ang, cent, axis)
diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index aca0504..08fa0ac 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -2634,6 +2634,15 @@ def mirror_native_brep(yapcad_solid, plane):
         return geom_mirror(p, plane)
 
     transform_topology_graph(graph, mirror_point)
+
+    # Arcs turn the other way when mirrored within the XY plane
+    if plane != 'xy':
+        for eid, edge in graph.edges.items():
+            params = edge[2].get('curve_params', {})
+            for key in ('bulge', 'orientation'):
+                if params.get(key) is not None:
+                    params[key] = -params[key]
+
     attach_native_brep_to_solid(yapcad_solid, graph)
 
 
-- 
2.43.0


From 4527893a0ba803044b5e246ed93f27c016ffe6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:54 +0000
Subject: [PATCH 67/93] fix: arcs that start at 0 or end at 360 are sampled
 over their own angles, and arc bounding boxes contain the arc

---
 src/yapcad/geom.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index a7a4001..6d3121a 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2412,7 +2412,7 @@ def samplearc(c,u,polar=False):
     w=c[1][3]
     if w == -2: # if arc is flagged as sample-reversed, flip u
         u=1.0-u
-    if start != 0 and end != 360:
+    if not (start == 0 and end == 360):
         start = start % 360.0
         end = end % 360.0
         if end < start:
@@ -2463,7 +2463,7 @@ def unsamplearc(c,p):
     #     start = 0
     #     end = 360
         
-    if start != 0 and end != 360:
+    if not (start == 0 and end == 360):
         start = start % 360.0
         end = end % 360.0
         if end < start:
@@ -2478,7 +2478,7 @@ def unsamplearc(c,p):
     if abs(mag(x)-r) > epsilon:
         return False            # point is not on arc circle
     ang = (atan2(x[1],x[0]) % pi2)*360/pi2
-    if end > 360.0 and ang <= end-360.0:
+    if not iscircle(c) and end >= 360.0 and ang <= end-360.0+epsilon:
         ang = ang + 360.0
     u = (ang-start)/(end-start)
     if c[1][3] == -2: #samplereverse
@@ -2492,11 +2492,15 @@ def arcbbox(c):
         rr=point(c[1][0],c[1][0])
         return [sub(c[0],rr),add(c[0],rr)]
     else:
-        pp = []
-        for i in range(5):
-            u = i/4
-            pp.append(samplearc(c,u))
-        return polybbox(pp)
+        start = c[1][1] % 360.0
+        end = c[1][2] % 360.0
+        if end < start:
+            end += 360.0
+        # the extremes are the endpoints and the axis crossings in between
+        angs = [start, end] + [a for a in range(0,720,90) if start < a < end]
+        return polybbox([add(c[0],scale3(vect(cos(a*pi2/360.0),
+                                              sin(a*pi2/360.0)),c[1][0]))
+                         for a in angs])
 
 def isinsidearcXY(c,p):
     """
-- 
2.43.0


From f2abd7103a37f197d2bae3f001772de617cf42cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:49 +0000
Subject: [PATCH 68/93] fix: planar intersections stay within line segments,
 wrapped arcs and polylines

---
 src/yapcad/geom.py | 35 +++++++++++++++++++----------------
 1 file changed, 19 insertions(+), 16 deletions(-)

diff --git a/src/yapcad/geom.py b/src/yapcad/geom.py
index 6d3121a..63ae9fd 100644
--- a/src/yapcad/geom.py
+++ b/src/yapcad/geom.py
@@ -2663,7 +2663,7 @@ def _arcArcIntersectXY(c1,c2,inside=True,params=False):
             uparam1 = uparam1 + [ u1 ]
                 
             if end2 <= 360.0 or ang2 >= start2 or \
-               ( end2 > 360.0 and ang2 > end1-360.0):
+               ( end2 > 360.0 and ang2 > end2-360.0):
                 u2 = (ang2-start2)/(end2-start2)
                 if sr2:
                     u2 = 1.0-u2
@@ -2788,7 +2788,7 @@ def _lineArcIntersectXY(l,c,inside=True,params=False):
     ## Check to see if we are within epsilon, scaled by the length of the line
     if mpm.fabs(d) < mpm.sqrt(a)*2*mpepsilon: # one point of intersection
         b0 = -b/(2*a)
-        b1 = False
+        b1 = None
     elif d < 0:
         print("value of d: ",d,"  value of sqrt(a)*epsilon",sqrt(a)*epsilon)
         raise ValueError("imaginary solution to circle line intersection -- shouldn't happen here")
@@ -2798,9 +2798,13 @@ def _lineArcIntersectXY(l,c,inside=True,params=False):
 
     # use computed parameters to calculate solutions, still in
     # circle-at-origin coordinates
-    s = [ add(scale3(V,float(b0)),p1) ]
-    if b1:
-        s = s + [ add(scale3(V,float(b1)),p1) ]
+    bb = [ b0 ] if b1 is None else [ b0, b1 ]
+    if inside and not params: # only points within the line segment
+        lim = epsilon/float(mpm.sqrt(a))
+        bb = [ b for b in bb if b >= -lim and b <= 1.0+lim ]
+        if not bb:
+            return False
+    s = [ add(scale3(V,float(b)),p1) for b in bb ]
 
     if not inside or circle or params:              # transform back into world
                                           # coordinates
@@ -3287,12 +3291,9 @@ def intersectSimplePolyXY(g,a,inside=True,params=False):
     uu2s = []
     lines, lengths, leng = __lineslength(a)
     if len(lines) == 1:
-        if LINE:
-            return lineLineIntersectXY(lines[0],g,inside,params)
-        else:
-            return lineArcIntersectXY(lines[0],g,inside,params)
+        return _intersectSimpleXY(g,lines[0],inside,params)
     dst = 0.0
-    if len(lines) > 2:
+    if len(lines) > 1:
         for i in range(len(lines)):
             if LINE:
                 uu = lineLineIntersectXY(lines[i],g,params=True)
@@ -3674,7 +3675,7 @@ def intersectGeomListXY(g,gl,inside=True,params=False):
             return 'simple'
         elif ispoly(geom):
             return 'poly'
-        elif isgeomlist(g):
+        elif isgeomlist(geom):
             return 'glist'
         else:
             return False
@@ -3749,9 +3750,9 @@ def intersectGeomListXY(g,gl,inside=True,params=False):
                 zz2 = []
                 for gg in g:
                     zz = intersectGeomListXY(gg,g2,params=True)
-                    if not isinstance(z,bool):
-                        zz1.append(zz[0])
-                        zz2.append(zz[1])
+                    if not isinstance(zz,bool):
+                        zz1 = zz1 + zz[0]
+                        zz2 = zz2 + zz[1]
                 if len(zz1) > 0:
                     uu = [zz1,zz2 ]
             else:
@@ -4416,7 +4417,8 @@ def intersectXY(g1,g2,inside=True,params=False):
             closed = False
             if len(g1) > 2 and dist(g1[0],g1[-1]) < epsilon:
                 closed= True
-            uu1s = uu2s = []
+            uu1s = []
+            uu2s = []
             pnts = []
             lines, lengths, leng =  __lineslength(g1)
             if lines == []:
@@ -4441,9 +4443,10 @@ def intersectXY(g1,g2,inside=True,params=False):
                                    (uu[0][j] >= 0.0 and uu[0][j] <= 1.0) and \
                                    (uu[1][j] >= 0.0 and uu[1][j] <= 1.0):
                                     pnts.append(sample(g2,uu[1][j]))
+                dst = dst+lengths[i]
             if params:
                 if len(uu1s) > 0:
-                    return [ uu2s, uu1s]
+                    return [ uu1s, uu2s]
                 else:
                     return False
             else:
-- 
2.43.0


From 9222ff67e986b54352f3aa823d8cb0138c0d2540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:37 +0000
Subject: [PATCH 69/93] fix: native BREP serialisation keeps vertex edges, edge
 sense, tolerance and faces, and shell type

---
 src/yapcad/native_brep.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index 08fa0ac..d047cfb 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -1807,6 +1807,7 @@ def _serialize_vertex(v):
         'location': _serialize_point(v[1]),
         'id': v[2].get('id'),
         'tolerance': v[2].get('tolerance', epsilon),
+        'edges': list(v[2].get('edges', [])),
         'tags': v[2].get('tags', {}),
     }
 
@@ -1818,6 +1819,7 @@ def _deserialize_vertex(data):
                     tags=data.get('tags', {}))
     # Restore original ID
     v[2]['id'] = data['id']
+    v[2]['edges'] = list(data.get('edges', []))
     return v
 
 
@@ -1832,6 +1834,9 @@ def _serialize_edge(e):
         'id': meta.get('id'),
         'start_vertex': meta.get('start_vertex_id'),  # Note: key is start_vertex_id in metadata
         'end_vertex': meta.get('end_vertex_id'),      # Note: key is end_vertex_id in metadata
+        'sense': meta.get('sense', True),
+        'tolerance': meta.get('tolerance', epsilon),
+        'faces': list(meta.get('faces', [])),
         'tags': meta.get('tags', {}),
     }
     # Serialize curve parameters
@@ -1915,6 +1920,9 @@ def _deserialize_edge(data, vertex_map=None):
 
     # Restore original ID
     e[2]['id'] = data['id']
+    e[2]['sense'] = data.get('sense', True)
+    e[2]['tolerance'] = data.get('tolerance', epsilon)
+    e[2]['faces'] = list(data.get('faces', []))
     return e
 
 
@@ -2194,6 +2202,7 @@ def _serialize_shell(s):
         'type': 'brep_shell',
         'face_ids': list(s[1]),
         'id': meta.get('id'),
+        'shell_type': meta.get('shell_type', 'outer'),
         'closed': meta.get('closed'),
         'solid_id': meta.get('solid_id'),
         'tags': meta.get('tags', {}),
@@ -2205,7 +2214,8 @@ def _deserialize_shell(data, face_map=None):
     face_refs = [face_map.get(fid) if face_map else fid
                  for fid in data.get('face_ids', [])]
 
-    s = brep_shell(face_refs, closed=data.get('closed'),
+    s = brep_shell(face_refs, shell_type=data.get('shell_type', 'outer'),
+                   closed=data.get('closed'),
                    tags=data.get('tags', {}))
     s[2]['id'] = data['id']
     if data.get('solid_id'):
-- 
2.43.0


From f81346ea368edf5945926b5cc46875f4c0fc996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:37 +0000
Subject: [PATCH 70/93] fix: geometry JSON keeps sketch z, surface boundaries
 and holes, and every kind of entity

---
 docs/geometry_json_schema.md   |  2 ++
 src/yapcad/io/geometry_json.py | 49 ++++++++++++++++++++++++----------
 2 files changed, 37 insertions(+), 14 deletions(-)

diff --git a/docs/geometry_json_schema.md b/docs/geometry_json_schema.md
index f1a48b0..7eb3766 100644
--- a/docs/geometry_json_schema.md
+++ b/docs/geometry_json_schema.md
@@ -99,6 +99,8 @@ present for backwards compatibility.
   "vertices": [[x, y, z, 1], ...],
   "normals":  [[nx, ny, nz, 0], ...],
   "faces":    [[i0, i1, i2], ...],   // index into `vertices`
+  "boundary": [i0, i1, ...],         // outer boundary, index into `vertices`
+  "holes":    [[i0, i1, ...], ...],  // hole boundaries, index into `vertices`
   "triangulation": {
     "winding": "ccw",
     "topology": "triangle"
diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index 30ddece..cbd424e 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -100,6 +100,8 @@ def _serialize_surface(surface: list, metadata_override: Optional[Dict[str, Any]
         "vertices": [_float_vec(v) for v in verts],
         "normals": [_float_vec(n) for n in norms],
         "faces": [_int_vec(face) for face in faces],
+        "boundary": _int_vec(surface[4]) if len(surface) > 4 else [],
+        "holes": [_int_vec(hole) for hole in surface[5]] if len(surface) > 5 else [],
         "triangulation": {
             "winding": "ccw",
             "topology": "triangle",
@@ -202,6 +204,12 @@ def _polyline_points(sequence: List[float]) -> List[float]:
     return [float(sequence[0]), float(sequence[1])]
 
 
+def _primitive_point(sequence: List[float]) -> List[float]:
+    """Return ``[x, y]`` for a point in the XY plane, ``[x, y, z]`` otherwise."""
+    x, y, z, _ = _point_components(sequence)
+    return [x, y, z] if z != 0.0 else [x, y]
+
+
 def _sample_geometry_element(element: list, min_segments: int = 8) -> List[List[float]]:
     if isline(element):
         return [
@@ -232,8 +240,8 @@ def _serialize_sketch(geomlist: list, metadata_override: Optional[Dict[str, Any]
             primitives.append(
                 {
                     "kind": "line",
-                    "start": start,
-                    "end": end,
+                    "start": _primitive_point(element[0]),
+                    "end": _primitive_point(element[1]),
                 }
             )
         elif iscircle(element):
@@ -307,7 +315,10 @@ def _serialize_sketch(geomlist: list, metadata_override: Optional[Dict[str, Any]
             coords = [_polyline_points(pt) for pt in element]
             if coords:
                 poly_vectors.append(coords)
-                primitives.append({"kind": "polyline", "points": coords})
+                primitives.append({
+                    "kind": "polyline",
+                    "points": [_primitive_point(pt) for pt in element],
+                })
         else:
             raise ValueError(f"cannot serialize sketch element: {element}")
 
@@ -374,7 +385,13 @@ def geometry_to_json(
                     set_layer(meta, layer)
                 meta.update({k: v for k, v in metadata_override.items() if k != "layer"})
             surface_entry = _serialize_surface(entity, metadata_override)
-            surface_cache.setdefault(surface_entry["id"], surface_entry)
+            if surface_entry["id"] in surface_cache:
+                # a copy of a surface already written keeps its own entry
+                new_id = uuid.uuid4().hex
+                surface_entry["metadata"] = dict(
+                    surface_entry["metadata"], entityId=new_id, id=new_id)
+                surface_entry["id"] = new_id
+            surface_cache[surface_entry["id"]] = surface_entry
         elif isgeomlist(entity):
             sketch_entry = _serialize_sketch(entity, metadata_override)
             serialized_entities.append(sketch_entry)
@@ -402,7 +419,9 @@ def _rehydrate_surface(entry: Dict[str, Any]) -> list:
     verts = [list(map(float, v)) for v in entry.get("vertices", [])]
     norms = [list(map(float, n)) for n in entry.get("normals", [])]
     faces = [list(map(int, f)) for f in entry.get("faces", [])]
-    surface = ['surface', verts, norms, faces, [], []]
+    boundary = [int(i) for i in entry.get("boundary", [])]
+    holes = [list(map(int, h)) for h in entry.get("holes", [])]
+    surface = ['surface', verts, norms, faces, boundary, holes]
     metadata = entry.get("metadata")
     if metadata:
         set_surface_metadata(surface, metadata)
@@ -423,6 +442,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
 
     surfaces: Dict[str, list] = {}
     solids: List[list] = []
+    referenced: set = set()
 
     # First pass: instantiate surfaces explicitly listed
     for entry in doc.get("entities", []):
@@ -442,6 +462,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     raise ValueError(f"surface {sid} referenced by solid but not provided")
                 surface = _rehydrate_surface(surf_entry)
                 surfaces[sid] = surface
+            referenced.add(sid)
             shell_surfaces.append(surface)
 
         voids: List[List[list]] = []
@@ -455,6 +476,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                         raise ValueError(f"void surface {sid} missing")
                     surface = _rehydrate_surface(surf_entry)
                     surfaces[sid] = surface
+                referenced.add(sid)
                 void_surfaces.append(surface)
             voids.append(void_surfaces)
 
@@ -465,13 +487,11 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
         brep_from_solid(solid)
         solids.append(solid)
 
-    if solids:
-        return solids
+    geomlists: List[list] = []
     sketches = [
         entry for entry in doc.get("entities", []) if entry.get("type") == "sketch"
     ]
     if sketches:
-        geomlists: List[list] = []
         for sketch in sketches:
             primitives = sketch.get("primitives") or []
             elements: List[list] = []
@@ -481,8 +501,8 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     start = prim.get("start", [])
                     end = prim.get("end", [])
                     if len(start) >= 2 and len(end) >= 2:
-                        p0 = point(float(start[0]), float(start[1]))
-                        p1 = point(float(end[0]), float(end[1]))
+                        p0 = _point_from_components(start)
+                        p1 = _point_from_components(end)
                         elements.append(line(p0, p1))
                 elif kind == "circle":
                     center = _point_from_components(prim.get("center", [0.0, 0.0, 0.0, 1.0]))
@@ -527,7 +547,7 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                     )
                 elif kind == "polyline":
                     coords = prim.get("points", [])
-                    pts = [point(float(pt[0]), float(pt[1])) for pt in coords if len(pt) >= 2]
+                    pts = [_point_from_components(pt) for pt in coords if len(pt) >= 2]
                     for idx in range(len(pts) - 1):
                         elements.append(line(pts[idx], pts[idx + 1]))
                 elif kind == "catmullrom":
@@ -574,9 +594,10 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                 polylines.extend(segments)
             if polylines:
                 geomlists.append(polylines)
-        if geomlists:
-            return geomlists
-    return list(surfaces.values())
+
+    # surfaces that belong to a solid are returned as part of that solid
+    standalone = [surf for sid, surf in surfaces.items() if sid not in referenced]
+    return solids + geomlists + standalone
 
 
 __all__ = [
-- 
2.43.0


From 126bbb5e1b28caadd0a7e6e50dee93f9c2ec85b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:41 +0000
Subject: [PATCH 71/93] fix: kinematic frames and chains come back from JSON as
 they were written

---
 src/yapcad/kinematics/chain.py | 30 ++++++++++++++++++++----------
 src/yapcad/kinematics/frame.py |  3 ++-
 2 files changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/kinematics/chain.py b/src/yapcad/kinematics/chain.py
index c711740..9f52df3 100644
--- a/src/yapcad/kinematics/chain.py
+++ b/src/yapcad/kinematics/chain.py
@@ -354,6 +354,10 @@ class KinematicChain:
         return {
             "name": self.name,
             "parts": parts_data,
+            "datum_frames": {
+                name: frame.to_dict()
+                for name, frame in self.parts[self.DATUM_NAME].frames.items()
+            },
         }
 
     @classmethod
@@ -376,6 +380,11 @@ class KinematicChain:
         """
         chain = cls(name=data.get("name", "assembly"))
 
+        # Frames of the global datum, which has no entry among the parts
+        datum = chain.parts[cls.DATUM_NAME]
+        for name, frame_data in data.get("datum_frames", {}).items():
+            datum.frames[name] = CoordinateFrame.from_dict(frame_data)
+
         # Sort parts by dependency (parents first)
         parts_data = data.get("parts", {})
         sorted_names = cls._topological_sort(parts_data)
@@ -401,20 +410,21 @@ class KinematicChain:
 
         # Simple topological sort
         sorted_names = []
-        remaining = set(dependencies.keys())
+        remaining = list(dependencies)
 
         while remaining:
-            # Find parts with no remaining dependencies
-            ready = [
-                name for name in remaining
-                if dependencies[name] is None or dependencies[name] not in remaining
-            ]
-            if not ready:
-                # Cycle or missing parent - add remaining in order
+            # Find the first part whose parent is placed already
+            pending = set(remaining)
+            ready = next(
+                (name for name in remaining if dependencies[name] not in pending),
+                None,
+            )
+            if ready is None:
+                # Cycle - add remaining in order
                 sorted_names.extend(remaining)
                 break
-            sorted_names.extend(ready)
-            remaining -= set(ready)
+            sorted_names.append(ready)
+            remaining.remove(ready)
 
         return sorted_names
 
diff --git a/src/yapcad/kinematics/frame.py b/src/yapcad/kinematics/frame.py
index a549aa4..8670211 100644
--- a/src/yapcad/kinematics/frame.py
+++ b/src/yapcad/kinematics/frame.py
@@ -118,6 +118,7 @@ class CoordinateFrame:
         return {
             "name": self.name,
             "transform": tf.to_dict(),
+            "explicit": self.transform is not None,
             "datum_source": self.datum_source,
             "datum_name": self.datum_name,
             "description": self.description,
@@ -127,7 +128,7 @@ class CoordinateFrame:
     def from_dict(cls, data: dict) -> CoordinateFrame:
         """Create frame from dictionary."""
         transform = None
-        if "transform" in data:
+        if "transform" in data and data.get("explicit", True):
             transform = Transform.from_dict(data["transform"])
 
         return cls(
-- 
2.43.0


From f68437ad118ebf524d56c04cb526809970127edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:26 +0000
Subject: [PATCH 72/93] fix: geometry JSON keeps a solid's material and
 construction, and solid() keeps them apart

---
 docs/geometry_json_schema.md   |  4 +++-
 src/yapcad/geom3d.py           | 11 ++++-------
 src/yapcad/io/geometry_json.py | 13 ++++++++++---
 3 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/docs/geometry_json_schema.md b/docs/geometry_json_schema.md
index 7eb3766..1fb15e9 100644
--- a/docs/geometry_json_schema.md
+++ b/docs/geometry_json_schema.md
@@ -68,7 +68,9 @@ Each entity's `metadata` block MUST include the root fields from `metadata_names
   "shell": ["<surface-id>", ...],  // ordered to define closed surface set
   "voids": [
     ["<surface-id>", ...]
-  ]
+  ],
+  "material": [],               // the solid's material list
+  "construction": ["procedure", "..."]  // how the solid was made
 }
 ```
 
diff --git a/src/yapcad/geom3d.py b/src/yapcad/geom3d.py
index f8c879d..cbd42fb 100644
--- a/src/yapcad/geom3d.py
+++ b/src/yapcad/geom3d.py
@@ -755,8 +755,7 @@ def solid(*args):
                 raise ValueError('bad arguments to solid')
 
         surfaces = args[0]
-        material = []
-        construction = []
+        lists = []
         metadata = None
 
         for item in args[1:]:
@@ -765,15 +764,13 @@ def solid(*args):
                     raise ValueError('multiple metadata dictionaries passed to solid')
                 metadata = item
             elif isinstance(item, list):
-                if material == []:
-                    material = item
-                elif construction == []:
-                    construction = item
-                else:
+                if len(lists) == 2:
                     raise ValueError('too many list arguments passed to solid')
+                lists.append(item)
             else:
                 raise ValueError('bad arguments to solid')
 
+        material, construction = (lists + [[], []])[:2]
         sld = ['solid', surfaces, material, construction]
         if metadata is not None:
             sld.append(metadata)
diff --git a/src/yapcad/io/geometry_json.py b/src/yapcad/io/geometry_json.py
index cbd424e..999e8ab 100644
--- a/src/yapcad/io/geometry_json.py
+++ b/src/yapcad/io/geometry_json.py
@@ -149,8 +149,12 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
         layers_seen.append(serialized["metadata"].get("layer", "default"))
 
     voids: List[List[str]] = []
-    if len(solid) > 2:
-        for void in solid[2] or []:
+    has_voids = any(
+        isinstance(void, list) and any(issurface(surf) for surf in void)
+        for void in solid[2]
+    )
+    if has_voids:
+        for void in solid[2]:
             void_ids: List[str] = []
             for surf in void:
                 if not issurface(surf):
@@ -197,6 +201,8 @@ def _serialize_solid(solid: list, surface_cache: Dict[str, Dict[str, Any]], meta
         "properties": {},
         "shell": shell_ids,
         "voids": voids,
+        "material": [] if has_voids else list(solid[2]),
+        "construction": list(solid[3]),
     }
 
 
@@ -480,7 +486,8 @@ def geometry_from_json(doc: Dict[str, Any]) -> List[list]:
                 void_surfaces.append(surface)
             voids.append(void_surfaces)
 
-        solid = ['solid', shell_surfaces, voids, []]
+        solid = ['solid', shell_surfaces, voids or list(entry.get("material") or []),
+                 list(entry.get("construction") or [])]
         metadata = entry.get("metadata")
         if metadata:
             set_solid_metadata(solid, metadata)
-- 
2.43.0


From 24ad0d903896aac64ef5164b25d420fcc1173d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:57 +0000
Subject: [PATCH 73/93] fix: the DSL command line tool fails when it cannot do
 what it was asked

An output that could not be written (unknown format, STEP/STL of a
non-solid, DXF of something else) was announced as a warning with exit
status 0; --output together with --package was ignored, and so was
--recursion-limit.
---
 src/yapcad/dsl/__main__.py  | 17 ++++++++++++-----
 src/yapcad/dsl/packaging.py |  5 ++++-
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/dsl/__main__.py b/src/yapcad/dsl/__main__.py
index 49ca3d7..ae9450b 100644
--- a/src/yapcad/dsl/__main__.py
+++ b/src/yapcad/dsl/__main__.py
@@ -171,6 +171,11 @@ def cmd_run(args):
         print(f"Error: File not found: {source_path}", file=sys.stderr)
         return 1
 
+    if args.package and args.output:
+        print("Error: --package creates a package instead of a raw export; "
+              "it cannot be combined with --output", file=sys.stderr)
+        return 1
+
     source = source_path.read_text()
 
     # Parse parameters
@@ -196,6 +201,7 @@ def cmd_run(args):
             version=args.version or "1.0.0",
             description=args.description,
             overwrite=args.force,
+            recursion_limit=getattr(args, 'recursion_limit', None),
         )
 
         if not result.success:
@@ -259,14 +265,14 @@ def cmd_run(args):
                     print(f"Error: DXF export failed", file=sys.stderr)
                     return 1
             else:
-                print(f"Warning: Cannot export geometry to DXF", file=sys.stderr)
-                return 0
+                print(f"Error: Cannot export geometry to DXF", file=sys.stderr)
+                return 1
 
         # 3D-only formats (STEP, STL) require solid geometry
         elif suffix in ('.step', '.stp', '.stl'):
             if not is_solid:
-                print(f"Warning: {suffix.upper()} export requires solid geometry", file=sys.stderr)
-                return 0
+                print(f"Error: {suffix.upper()} export requires solid geometry", file=sys.stderr)
+                return 1
 
             # Prepare solid for export
             if issolid(geometry):
@@ -300,7 +306,8 @@ def cmd_run(args):
                 print(f"Exported to: {output_path}")
 
         else:
-            print(f"Warning: Unknown output format: {suffix}", file=sys.stderr)
+            print(f"Error: Unknown output format: {suffix}", file=sys.stderr)
+            return 1
 
     return 0
 
diff --git a/src/yapcad/dsl/packaging.py b/src/yapcad/dsl/packaging.py
index d14d210..8713658 100644
--- a/src/yapcad/dsl/packaging.py
+++ b/src/yapcad/dsl/packaging.py
@@ -28,6 +28,7 @@ def package_from_dsl(
     units: Optional[str] = None,
     materials: Optional[Dict[str, Dict[str, Any]]] = None,
     overwrite: bool = False,
+    recursion_limit: Optional[int] = None,
 ) -> "PackageResult":
     """Compile DSL source, execute a command, and package the result.
 
@@ -47,6 +48,7 @@ def package_from_dsl(
         units: Unit system (default "mm").
         materials: Optional materials dictionary for the package.
         overwrite: If True, overwrite existing package directory.
+        recursion_limit: Maximum depth for command-to-command calls.
 
     Returns:
         PackageResult with success status, manifest, and any error info.
@@ -76,7 +78,8 @@ def package_from_dsl(
     from yapcad.geom3d import issolid, issurface
 
     # Step 1: Compile and execute the DSL
-    exec_result = compile_and_run(source, command_name, parameters)
+    exec_result = compile_and_run(source, command_name, parameters,
+                                  recursion_limit=recursion_limit)
 
     if not exec_result.success:
         return PackageResult(
-- 
2.43.0


From 7e836271fd5493255f02cb2bbc2a5f91c8d36ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:32 +0000
Subject: [PATCH 74/93] fix: the mesh collision test counts all faces instead
 of a random thousand

Leaving faces out of a ray parity count changes the parity, so the result
for a mesh of more than 1000 faces was wrong at random.
---
 src/yapcad/assembly/kinematic_integration.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 1be2163..223e629 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -443,19 +443,14 @@ def _points_inside_mesh_simple(points: np.ndarray,
     # Get mesh triangles
     triangles = mesh.triangles  # Shape (n_faces, 3, 3)
 
-    # For efficiency, only test a subset if there are many faces
-    max_faces = 1000
-    if len(triangles) > max_faces:
-        indices = np.random.choice(len(triangles), max_faces, replace=False)
-        triangles = triangles[indices]
-
     # Ray direction
     ray_dir = np.array([1.0, 0.0, 0.0])
 
     for i, point in enumerate(points):
-        # Count intersections with triangles
+        # Count intersections with all triangles: leaving any out changes
+        # the parity
         intersections = 0
-        for tri in triangles:
+        for tri in triangles[_may_hit_along_x(point, triangles)]:
             if _ray_triangle_intersect(point, ray_dir, tri):
                 intersections += 1
 
@@ -465,6 +460,15 @@ def _points_inside_mesh_simple(points: np.ndarray,
     return inside
 
 
+def _may_hit_along_x(origin: np.ndarray, triangles: np.ndarray) -> np.ndarray:
+    """Mask of the triangles whose bounds a ray from origin in +X can meet."""
+    lo = triangles.min(axis=1)
+    hi = triangles.max(axis=1)
+    return ((hi[:, 0] >= origin[0])
+            & (lo[:, 1] <= origin[1]) & (hi[:, 1] >= origin[1])
+            & (lo[:, 2] <= origin[2]) & (hi[:, 2] >= origin[2]))
+
+
 def _ray_triangle_intersect(origin: np.ndarray,
                              direction: np.ndarray,
                              triangle: np.ndarray) -> bool:
-- 
2.43.0


From 452d2d24a675a745ce812c3672a14ec03de869f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:32 +0000
Subject: [PATCH 75/93] fix: OCC vertices are told apart by position, not by
 its hash

hash(-1.0) == hash(-2.0): vertices at x = -1 and x = -2 were merged.
---
 src/yapcad/occ_native_convert.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/yapcad/occ_native_convert.py b/src/yapcad/occ_native_convert.py
index db9fa03..dfc0b0e 100644
--- a/src/yapcad/occ_native_convert.py
+++ b/src/yapcad/occ_native_convert.py
@@ -432,20 +432,20 @@ def occ_edge_to_native(edge: TopoDS_Edge, vertex_map: dict = None):
     p2 = BRep_Tool.Pnt(v2)
 
     # Get or create native vertices
-    v1_hash = hash((round(p1.X(), 8), round(p1.Y(), 8), round(p1.Z(), 8)))
-    v2_hash = hash((round(p2.X(), 8), round(p2.Y(), 8), round(p2.Z(), 8)))
+    v1_key = (round(p1.X(), 8), round(p1.Y(), 8), round(p1.Z(), 8))
+    v2_key = (round(p2.X(), 8), round(p2.Y(), 8), round(p2.Z(), 8))
 
-    if v1_hash in vertex_map:
-        native_v1 = vertex_map[v1_hash]
+    if v1_key in vertex_map:
+        native_v1 = vertex_map[v1_key]
     else:
         native_v1 = brep_vertex([p1.X(), p1.Y(), p1.Z()])
-        vertex_map[v1_hash] = native_v1
+        vertex_map[v1_key] = native_v1
 
-    if v2_hash in vertex_map:
-        native_v2 = vertex_map[v2_hash]
+    if v2_key in vertex_map:
+        native_v2 = vertex_map[v2_key]
     else:
         native_v2 = brep_vertex([p2.X(), p2.Y(), p2.Z()])
-        vertex_map[v2_hash] = native_v2
+        vertex_map[v2_key] = native_v2
 
     # Get parameter bounds
     t_min, t_max = adaptor.FirstParameter(), adaptor.LastParameter()
@@ -556,7 +556,7 @@ def occ_solid_to_native_brep(shape: TopoDS_Shape, tessellate_fallback: bool = Tr
     require_occ()
 
     graph = TopologyGraph()
-    vertex_map = {}  # OCC vertex hash -> native vertex
+    vertex_map = {}  # rounded OCC vertex position -> native vertex
     edge_map = {}    # OCC edge hash -> native edge
 
     # Get the solid (handle both Solid and Shell inputs)
-- 
2.43.0


From cea2b97db0e7f465b0f4a48cb1d3b518d267c2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:32 +0000
Subject: [PATCH 76/93] fix: edge set operations compare edges with IsSame and
 keep their order

HashCode is not unique, and the intersection came out in set order.
---
 src/yapcad/brep_edge_select.py | 40 ++++++++++------------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/src/yapcad/brep_edge_select.py b/src/yapcad/brep_edge_select.py
index baa6c38..e6a767b 100644
--- a/src/yapcad/brep_edge_select.py
+++ b/src/yapcad/brep_edge_select.py
@@ -793,6 +793,11 @@ def edge_info(edge: BrepEdge) -> dict:
 
 # Convenience functions for combining selections
 
+def _has_edge(edges: List[BrepEdge], edge: BrepEdge) -> bool:
+    """Whether the same topological edge is in the list (in either orientation)."""
+    return any(e.shape.IsSame(edge.shape) for e in edges)
+
+
 def union_edges(*edge_lists: List[BrepEdge]) -> List[BrepEdge]:
     """Combine multiple edge lists, removing duplicates.
 
@@ -802,15 +807,11 @@ def union_edges(*edge_lists: List[BrepEdge]) -> List[BrepEdge]:
     Returns:
         Combined list of unique BrepEdge objects
     """
-    seen = set()
     result = []
 
     for edge_list in edge_lists:
         for edge in edge_list:
-            # Use the shape's hash for uniqueness
-            edge_hash = hash(edge.shape.HashCode(2147483647))
-            if edge_hash not in seen:
-                seen.add(edge_hash)
+            if not _has_edge(result, edge):
                 result.append(edge)
 
     return result
@@ -828,24 +829,12 @@ def intersect_edges(*edge_lists: List[BrepEdge]) -> List[BrepEdge]:
     if not edge_lists:
         return []
 
-    # Build hash sets for each list
-    hash_sets = []
-    edge_by_hash = {}
-
-    for edge_list in edge_lists:
-        hash_set = set()
-        for edge in edge_list:
-            edge_hash = hash(edge.shape.HashCode(2147483647))
-            hash_set.add(edge_hash)
-            edge_by_hash[edge_hash] = edge
-        hash_sets.append(hash_set)
-
-    # Find intersection
-    common_hashes = hash_sets[0]
-    for hash_set in hash_sets[1:]:
-        common_hashes = common_hashes & hash_set
+    result = []
+    for edge in union_edges(edge_lists[0]):
+        if all(_has_edge(edge_list, edge) for edge_list in edge_lists[1:]):
+            result.append(edge)
 
-    return [edge_by_hash[h] for h in common_hashes]
+    return result
 
 
 def subtract_edges(base_edges: List[BrepEdge],
@@ -859,12 +848,7 @@ def subtract_edges(base_edges: List[BrepEdge],
     Returns:
         List of BrepEdge objects from base_edges not in edges_to_remove
     """
-    remove_hashes = set()
-    for edge in edges_to_remove:
-        remove_hashes.add(hash(edge.shape.HashCode(2147483647)))
-
-    return [e for e in base_edges
-            if hash(e.shape.HashCode(2147483647)) not in remove_hashes]
+    return [e for e in base_edges if not _has_edge(edges_to_remove, e)]
 
 
 __all__ = [
-- 
2.43.0


From 0a43dd629fcf6ef1f1d1379b25754c4261c24d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:32 +0000
Subject: [PATCH 77/93] fix: addVertex knows its vertex list by the list
 itself, not by its address

A new list at the address of a dead one was given the other's index.
---
 src/yapcad/geom3d_util.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 08be7f2..267e002 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -176,7 +176,7 @@ icaIndices = [ [1,11,3],[3,11,5],[5,11,7],[7,11,9],[9,11,1],
                [0,2,4],[0,4,6],[0,6,8],[0,8,10],[0,10,2] ]
 
 vertexHash = {}
-_vertexHash_owner = None
+_vertexHash_owner = None     # the list itself: its address may be given to another one
 def addVertex(nv,nn,verts,normals):
     """
     Utility function that takes a vertex and associated normal and a
@@ -188,10 +188,9 @@ def addVertex(nv,nn,verts,normals):
     returns the index, and the (potentiall updated) lists
     """
     global vertexHash, _vertexHash_owner
-    owner_id = id(verts)
-    if _vertexHash_owner != owner_id or len(verts) == 0:
+    if _vertexHash_owner is not verts or len(verts) == 0:
         vertexHash = {}
-        _vertexHash_owner = owner_id
+        _vertexHash_owner = verts
 
     found = False
     # Normalize tiny values to avoid "-0.00" != "0.00" hash key mismatch
-- 
2.43.0


From d24f75d0665379511d9949e25e949e1d17eae7c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:32 +0000
Subject: [PATCH 78/93] fix: results, diagnostics and messages do not depend on
 set or directory order

---
 src/yapcad/assembly/intent.py        | 4 ++--
 src/yapcad/boolean/trimesh_engine.py | 2 +-
 src/yapcad/collision/registry.py     | 2 +-
 src/yapcad/dsl/checker.py            | 4 ++--
 src/yapcad/native_brep.py            | 2 +-
 src/yapcad/octtree.py                | 2 +-
 src/yapcad/package/analysis/base.py  | 2 +-
 src/yapcad/text3d.py                 | 2 +-
 src/yapcad/viewer/api_server.py      | 2 +-
 9 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/assembly/intent.py b/src/yapcad/assembly/intent.py
index 1e98965..83386ac 100644
--- a/src/yapcad/assembly/intent.py
+++ b/src/yapcad/assembly/intent.py
@@ -1000,7 +1000,7 @@ class AssemblyIntent:
         for req in self.functional_requirements:
             params.extend(req.get_derived_parameters())
 
-        return list(set(params))  # Remove duplicates
+        return list(dict.fromkeys(params))  # Remove duplicates
 
     def solve(self) -> SolveResult:
         """Solve the assembly intent to derive parameters.
@@ -1094,7 +1094,7 @@ class AssemblyIntent:
             connected_parts.add(conn.get_parent_part())
             connected_parts.add(conn.get_child_part())
 
-        for part in parts_mentioned:
+        for part in sorted(parts_mentioned):
             if part not in connected_parts:
                 issues.append(
                     f"Part '{part}' has requirements but no connections"
diff --git a/src/yapcad/boolean/trimesh_engine.py b/src/yapcad/boolean/trimesh_engine.py
index 9d19827..a215b83 100644
--- a/src/yapcad/boolean/trimesh_engine.py
+++ b/src/yapcad/boolean/trimesh_engine.py
@@ -111,7 +111,7 @@ def solid_boolean(a, b, operation: str, tol=_native._DEFAULT_RAY_TOL, *, stitch:
     available = engines_available()
     if backend is not None and backend not in available:
         raise RuntimeError(
-            f"trimesh backend '{backend}' is not available; install the appropriate binary (available: {available})"
+            f"trimesh backend '{backend}' is not available; install the appropriate binary (available: {sorted(map(str, available))})"
         )
     if backend is None and not available:
         raise RuntimeError(
diff --git a/src/yapcad/collision/registry.py b/src/yapcad/collision/registry.py
index 46d2073..3a8d7a0 100644
--- a/src/yapcad/collision/registry.py
+++ b/src/yapcad/collision/registry.py
@@ -304,7 +304,7 @@ class InterfaceRegistry:
                         names.add(iface_a.name)
                         names.add(iface_b.name)
 
-        return list(names)
+        return sorted(names)
 
     def get_all_interfaces(self) -> List[InterfaceVolume]:
         """Get all registered interfaces.
diff --git a/src/yapcad/dsl/checker.py b/src/yapcad/dsl/checker.py
index 0ca2f12..6c7c553 100644
--- a/src/yapcad/dsl/checker.py
+++ b/src/yapcad/dsl/checker.py
@@ -908,14 +908,14 @@ class TypeChecker:
             rec_stack.add(node)
             path.append(node)
 
-            for callee in self._call_graph.get(node, set()):
+            for callee in sorted(self._call_graph.get(node, set())):
                 find_cycles(callee, path)
 
             path.pop()
             rec_stack.remove(node)
 
         # Start DFS from each command
-        for cmd_name in self._command_names:
+        for cmd_name in (cmd.name for cmd in module.commands):
             if cmd_name not in visited:
                 find_cycles(cmd_name, [])
 
diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index d047cfb..df934fd 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -1155,7 +1155,7 @@ class TopologyGraph:
         if shell is None:
             raise ValueError(f"Shell {shell_id} not found")
 
-        shell_face_ids = set(shell_faces(shell))
+        shell_face_ids = list(dict.fromkeys(shell_faces(shell)))
         edge_usage = {}
 
         for fid in shell_face_ids:
diff --git a/src/yapcad/octtree.py b/src/yapcad/octtree.py
index 1b7d2d9..718bc1a 100644
--- a/src/yapcad/octtree.py
+++ b/src/yapcad/octtree.py
@@ -623,6 +623,6 @@ class NTree():
                 
         #print("unique indices: ",idx)
 
-        elements = list(map(lambda x: self.__geom[x], list(idx)))
+        elements = list(map(lambda x: self.__geom[x], sorted(idx)))
 
         return elements
diff --git a/src/yapcad/package/analysis/base.py b/src/yapcad/package/analysis/base.py
index 29354ac..eacce89 100644
--- a/src/yapcad/package/analysis/base.py
+++ b/src/yapcad/package/analysis/base.py
@@ -145,7 +145,7 @@ def load_plan(path: Path | str) -> AnalysisPlan:
     if not isinstance(data, dict):
         raise ValueError(f"analysis plan must be a mapping, got {type(data)!r}")
 
-    required = {"id", "kind", "backend"}
+    required = ("id", "kind", "backend")
     missing = [key for key in required if key not in data]
     if missing:
         raise ValueError(f"analysis plan missing required keys: {', '.join(missing)}")
diff --git a/src/yapcad/text3d.py b/src/yapcad/text3d.py
index bec03d0..ce1ccc6 100644
--- a/src/yapcad/text3d.py
+++ b/src/yapcad/text3d.py
@@ -421,7 +421,7 @@ def find_system_font(font_name):
 
         # Also check subdirectories (one level deep)
         try:
-            for subdir in os.listdir(font_dir):
+            for subdir in sorted(os.listdir(font_dir)):
                 subdir_path = os.path.join(font_dir, subdir)
                 if os.path.isdir(subdir_path):
                     for pattern in patterns:
diff --git a/src/yapcad/viewer/api_server.py b/src/yapcad/viewer/api_server.py
index 41e1319..23fed1d 100644
--- a/src/yapcad/viewer/api_server.py
+++ b/src/yapcad/viewer/api_server.py
@@ -1073,7 +1073,7 @@ class ViewerAPIServer:
             if sid not in self._subscriptions:
                 self._subscriptions[sid] = set()
             self._subscriptions[sid].update(events)
-            emit("subscribed", {"events": list(self._subscriptions[sid])})
+            emit("subscribed", {"events": sorted(self._subscriptions[sid])})
 
         @self.socketio.on(EventType.UNSUBSCRIBE.value)
         def handle_unsubscribe(data):
-- 
2.43.0


From 4a6b0039f30d48a1a1360902eaf4b90340450520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:26 +0000
Subject: [PATCH 79/93] fix: an analysis plan is carried out in full or fails:
 entities, loads, conditions and materials

---
 src/yapcad/package/analysis/base.py          |  32 ++++
 src/yapcad/package/analysis/fenics.py        | 178 ++++++++++---------
 src/yapcad/package/analysis/yapcad_native.py |  10 +-
 3 files changed, 131 insertions(+), 89 deletions(-)

diff --git a/src/yapcad/package/analysis/base.py b/src/yapcad/package/analysis/base.py
index eacce89..83d40f6 100644
--- a/src/yapcad/package/analysis/base.py
+++ b/src/yapcad/package/analysis/base.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import abc
+import json
 from dataclasses import dataclass, field
 from pathlib import Path
 from typing import Any, Dict, Iterable, List, Optional, Sequence, Type
@@ -198,6 +199,36 @@ def load_plan(path: Path | str) -> AnalysisPlan:
     return plan
 
 
+def plan_geometry(manifest: Any, plan: AnalysisPlan) -> List[Any]:
+    """The geometry a plan names: entities (by id, all if none) of its source (the primary geometry if none)."""
+    from yapcad.geom3d import issolid, issurface
+    from yapcad.io.geometry_json import geometry_from_json
+    from yapcad.metadata import get_solid_metadata, get_surface_metadata
+    from yapcad.package.core import load_geometry
+
+    source = plan.geometry.get("source")
+    if source and manifest.root / source != manifest.geometry_primary_path():
+        with (manifest.root / source).open("r", encoding="utf-8") as fp:
+            geometry = geometry_from_json(json.load(fp))
+    else:
+        geometry = load_geometry(manifest)
+
+    wanted = plan.geometry.get("entities") or []
+    if not wanted:
+        return geometry
+
+    by_id: Dict[str, Any] = {}
+    for entity in geometry:
+        if issolid(entity):
+            by_id[get_solid_metadata(entity).get("entityId")] = entity
+        elif issurface(entity):
+            by_id[get_surface_metadata(entity).get("entityId")] = entity
+    missing = [entity_id for entity_id in wanted if entity_id not in by_id]
+    if missing:
+        raise ValueError(f"Plan names entities the geometry does not have: {', '.join(map(str, missing))}")
+    return [by_id[entity_id] for entity_id in wanted]
+
+
 __all__ = [
     "AnalysisAdapter",
     "AnalysisPlan",
@@ -206,5 +237,6 @@ __all__ = [
     "available_backends",
     "get_backend",
     "load_plan",
+    "plan_geometry",
     "register_backend",
 ]
diff --git a/src/yapcad/package/analysis/fenics.py b/src/yapcad/package/analysis/fenics.py
index 6a73ac5..cf8dd96 100644
--- a/src/yapcad/package/analysis/fenics.py
+++ b/src/yapcad/package/analysis/fenics.py
@@ -30,7 +30,7 @@ from datetime import datetime, timezone
 from pathlib import Path
 from typing import Any, Dict, List, Optional, Tuple
 
-from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, register_backend
+from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, plan_geometry, register_backend
 from .gmsh_mesher import GmshMesher, MeshHints, gmsh_available
 
 # FEniCSx imports with graceful fallback
@@ -230,30 +230,24 @@ class FenicsxAdapter(AnalysisAdapter):
     def _load_geometry(self, manifest: Any, plan: AnalysisPlan) -> Any:
         """Load geometry from the package.
 
-        Returns the first solid from the package geometry.
+        Returns the solid the plan is about.
         """
-        from yapcad.package.core import load_geometry
         from yapcad.geom3d import issolid
 
-        # Get geometry source from plan
-        geom_spec = plan.geometry
-        source = geom_spec.get("source", "geometry/primary.json")
-        entities = geom_spec.get("entities", [])
-
         # Load geometry from package - returns List[list] of entities
-        geometry = load_geometry(manifest)
-
-        if entities:
-            # Filter to specified entities
-            # TODO: Implement entity filtering
-            pass
+        geometry = plan_geometry(manifest, plan)
 
-        # Extract the first solid from the geometry list
-        # load_geometry returns a list of entities (solids, surfaces, etc.)
+        # Extract the solid from the geometry list
+        # plan_geometry returns a list of entities (solids, surfaces, etc.)
         if isinstance(geometry, list):
-            for entity in geometry:
-                if issolid(entity):
-                    return entity
+            solids = [entity for entity in geometry if issolid(entity)]
+            if len(solids) > 1:
+                raise ValueError(
+                    f"The fenics backend analyses one solid, not {len(solids)}: "
+                    "name one in geometry.entities"
+                )
+            if solids:
+                return solids[0]
             # If no solid found, maybe the geometry itself is a solid
             if geometry and issolid(geometry[0] if len(geometry) == 1 else geometry):
                 return geometry[0] if len(geometry) == 1 else geometry
@@ -496,12 +490,13 @@ class FenicsxAdapter(AnalysisAdapter):
 
     def _get_material(self, plan: AnalysisPlan) -> MaterialProperties:
         """Get material properties from plan."""
+        if plan.materials and "default" not in plan.materials:
+            raise ValueError("The fenics backend needs a 'default' material")
         mat_spec = plan.materials.get("default", {})
 
-        # Try to load from file reference
         if isinstance(mat_spec, str):
             # Path to material file - TODO: load from file
-            mat_spec = {}
+            raise ValueError(f"Material files are not supported by the fenics backend: {mat_spec}")
 
         return MaterialProperties(
             youngs_modulus=float(mat_spec.get("youngs_modulus_pa", self._DEFAULT_E)),
@@ -538,76 +533,88 @@ class FenicsxAdapter(AnalysisAdapter):
         fdim = tdim - 1
         domain.topology.create_connectivity(fdim, tdim)
 
-        # Get pressure magnitude and load strategy from plan loads
-        pressure_pa = 0.0
-        load_strategy = "z_max"  # Default: apply to top surface
-        load_direction = [0, 0, -1]  # Default: downward (-Z)
+        # Facets loaded by the i-th load carry bit i of their tag
+        num_facets = domain.topology.index_map(fdim).size_local
+        facet_values = np.zeros(num_facets, dtype=np.int32)
+        tractions = []
 
         for load in plan.loads:
-            if load.get("type") == "pressure":
-                pressure_pa = float(load.get("magnitude_pa", 0.0))
-                load_strategy = load.get("strategy", "z_max")
-                load_direction = load.get("direction", [0, 0, -1])
-                break
+            load_type = load.get("type")
+            if load_type != "pressure":
+                raise ValueError(f"Load type not supported by the fenics backend: {load_type}")
 
-        if pressure_pa == 0.0:
-            return None
+            if load.get("surfaces") and "strategy" not in load:
+                raise ValueError(f"Named surfaces need a strategy: load {load.get('id', '')}")
 
-        # Build facet selector based on strategy
-        if load_strategy == "motor_mount":
-            # Original thrust structure logic
-            motor_mount_diameter = float(design_params.get("motor_mount_diameter_mm", 101.6))
-            motor_mount_radius = motor_mount_diameter / 2.0
+            pressure_pa = float(load.get("magnitude_pa", 0.0))
+            load_strategy = load.get("strategy", "z_max")  # Default: apply to top surface
+            load_direction = load.get("direction", [0, 0, -1])  # Default: downward (-Z)
 
-            def load_region(x):
-                r = np.sqrt(x[0]**2 + x[1]**2)
-                on_top = np.isclose(x[2], z_max, atol=z_tol)
-                in_motor_region = r <= motor_mount_radius * 1.1
-                return on_top & in_motor_region
+            if pressure_pa == 0.0:
+                continue
 
-        elif load_strategy == "z_max_ring":
-            # Ring-shaped load region at top (e.g., cradle ring of globe stand)
-            # Load is applied to upper portion of geometry
-            z_threshold = z_max - z_range * 0.15  # Top 15% of height
+            # Build facet selector based on strategy
+            if load_strategy == "motor_mount":
+                # Original thrust structure logic
+                motor_mount_diameter = float(design_params.get("motor_mount_diameter_mm", 101.6))
+                motor_mount_radius = motor_mount_diameter / 2.0
 
-            def load_region(x):
-                return x[2] >= z_threshold
+                def load_region(x):
+                    r = np.sqrt(x[0]**2 + x[1]**2)
+                    on_top = np.isclose(x[2], z_max, atol=z_tol)
+                    in_motor_region = r <= motor_mount_radius * 1.1
+                    return on_top & in_motor_region
 
-        elif load_strategy == "z_min":
-            # Bottom surface
-            def load_region(x):
-                return np.isclose(x[2], z_min, atol=z_tol)
+            elif load_strategy == "z_max_ring":
+                # Ring-shaped load region at top (e.g., cradle ring of globe stand)
+                # Load is applied to upper portion of geometry
+                z_threshold = z_max - z_range * 0.15  # Top 15% of height
 
-        else:  # "z_max" - default
-            # Top surface
-            def load_region(x):
-                return np.isclose(x[2], z_max, atol=z_tol)
+                def load_region(x):
+                    return x[2] >= z_threshold
 
-        load_facet_indices = dfx_mesh.locate_entities_boundary(domain, fdim, load_region)
+            elif load_strategy == "z_min":
+                # Bottom surface
+                def load_region(x):
+                    return np.isclose(x[2], z_min, atol=z_tol)
 
-        if len(load_facet_indices) == 0:
-            return None
+            elif load_strategy == "z_max":
+                # Top surface
+                def load_region(x):
+                    return np.isclose(x[2], z_max, atol=z_tol)
 
-        # Convert pressure from Pa to MPa for mm-based geometry
-        SCALE_PA_TO_MPA = 1e-6
-        pressure_mpa = pressure_pa * SCALE_PA_TO_MPA
+            else:
+                raise ValueError(f"Unknown load strategy: {load_strategy}")
 
-        # Create facet tags for the load surface
-        num_facets = domain.topology.index_map(fdim).size_local
-        facet_values = np.zeros(num_facets, dtype=np.int32)
-        facet_values[load_facet_indices] = 1
+            load_facet_indices = dfx_mesh.locate_entities_boundary(domain, fdim, load_region)
 
+            if len(load_facet_indices) == 0:
+                raise ValueError(f"No surface found for load {load.get('id', load_strategy)}")
+
+            # Convert pressure from Pa to MPa for mm-based geometry
+            SCALE_PA_TO_MPA = 1e-6
+            pressure_mpa = pressure_pa * SCALE_PA_TO_MPA
+
+            # Apply load in specified direction
+            facet_values[load_facet_indices] |= 1 << len(tractions)
+            tractions.append(fem.Constant(domain, default_scalar_type((
+                load_direction[0] * pressure_mpa,
+                load_direction[1] * pressure_mpa,
+                load_direction[2] * pressure_mpa
+            ))))
+
+        if not tractions:
+            return None
+
+        # Create facet tags for the load surfaces
         facet_tags = dfx_mesh.meshtags(domain, fdim, np.arange(num_facets, dtype=np.int32), facet_values)
         ds = ufl.Measure("ds", domain=domain, subdomain_data=facet_tags)
+        tags = [int(tag) for tag in np.unique(facet_values)]
 
-        # Apply load in specified direction
-        traction = fem.Constant(domain, default_scalar_type((
-            load_direction[0] * pressure_mpa,
-            load_direction[1] * pressure_mpa,
-            load_direction[2] * pressure_mpa
-        )))
-
-        return ufl.dot(traction, v) * ds(1)
+        return sum(
+            ufl.dot(traction, v) * ds(tuple(tag for tag in tags if tag & (1 << i)))
+            for i, traction in enumerate(tractions)
+        )
 
     def _apply_boundary_conditions(self, domain, V, plan: AnalysisPlan) -> List:
         """Apply boundary conditions from plan.
@@ -635,9 +642,13 @@ class FenicsxAdapter(AnalysisAdapter):
 
         for bc_spec in plan.boundary_conditions:
             bc_type = bc_spec.get("type", "fixed")
+            if bc_spec.get("surfaces") and "strategy" not in bc_spec:
+                raise ValueError(f"Named surfaces need a strategy: boundary condition {bc_spec.get('id', '')}")
             bc_strategy = bc_spec.get("strategy", "z_min")  # Default: fix bottom
 
-            if bc_type == "fixed":
+            if bc_type != "fixed":
+                raise ValueError(f"Boundary condition type not supported by the fenics backend: {bc_type}")
+            else:
                 if bc_strategy == "stringer_notches":
                     # Original thrust structure logic
                     outer_diameter = float(design_params.get("outer_diameter_mm", 304.8))
@@ -674,20 +685,25 @@ class FenicsxAdapter(AnalysisAdapter):
                         r = np.sqrt(x[0]**2 + x[1]**2)
                         return r >= (r_max - r_tol)
 
-                else:  # "z_min" - default
+                elif bc_strategy == "z_min":
                     # Fix bottom surface (most common for stand structures)
                     def bc_region(x):
                         return np.isclose(x[2], z_min, atol=z_tol)
 
+                else:
+                    raise ValueError(f"Unknown boundary condition strategy: {bc_strategy}")
+
                 boundary_facets = dfx_mesh.locate_entities_boundary(
                     domain, fdim, bc_region
                 )
 
-                if len(boundary_facets) > 0:
-                    boundary_dofs = locate_dofs_topological(V, fdim, boundary_facets)
-                    u_bc = np.array([0, 0, 0], dtype=default_scalar_type)
-                    bc = dirichletbc(u_bc, boundary_dofs, V)
-                    bcs.append(bc)
+                if len(boundary_facets) == 0:
+                    raise ValueError(f"No surface found for boundary condition {bc_spec.get('id', bc_strategy)}")
+
+                boundary_dofs = locate_dofs_topological(V, fdim, boundary_facets)
+                u_bc = np.array([0, 0, 0], dtype=default_scalar_type)
+                bc = dirichletbc(u_bc, boundary_dofs, V)
+                bcs.append(bc)
 
         return bcs
 
diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index 63a0cc0..f202098 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -25,7 +25,7 @@ from datetime import datetime, timezone
 from pathlib import Path
 from typing import Any, Dict, List, Optional
 
-from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, register_backend
+from .base import AnalysisAdapter, AnalysisPlan, AnalysisResult, plan_geometry, register_backend
 
 
 def _now() -> str:
@@ -154,20 +154,14 @@ class YapCADNativeAdapter(AnalysisAdapter):
         Returns either a single solid or a list of solids (assembly).
         For aggregate checks like total mass or volume, all solids are used.
         """
-        from yapcad.package.core import load_geometry
         from yapcad.geom3d import issolid
 
         # Get geometry source from plan
         geom_spec = plan.geometry
-        entities = geom_spec.get("entities", [])
         aggregate = geom_spec.get("aggregate", False)  # Return all solids for assembly checks
 
         # Load geometry from package
-        geometry = load_geometry(manifest)
-
-        if entities:
-            # Filter to specified entities (future: implement entity lookup)
-            pass
+        geometry = plan_geometry(manifest, plan)
 
         # Extract solids from geometry list
         if isinstance(geometry, list):
-- 
2.43.0


From 0233692d09dadf40cb3e3a92436c7d9cf2f11da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:43 +0000
Subject: [PATCH 80/93] fix: words an option does not know are refused instead
 of taken for another

---
 src/yapcad/assembly/constraint.py             |  4 ++++
 src/yapcad/assembly/intent.py                 | 21 ++++++++++++++++---
 src/yapcad/assembly/kinematic_integration.py  |  4 ++++
 src/yapcad/assembly/resolver.py               |  4 +++-
 src/yapcad/ezdxf_drawable.py                  |  8 +++----
 src/yapcad/geom3d_util.py                     |  2 ++
 src/yapcad/manufacturing/rings.py             |  7 +++++--
 src/yapcad/package/analysis/face_naming.py    |  4 +++-
 src/yapcad/package/analysis/gmsh_mesher.py    |  8 +++----
 .../package/analysis/mechatron_fea_setup.py   |  2 ++
 src/yapcad/package/analysis/yapcad_native.py  |  2 ++
 11 files changed, 51 insertions(+), 15 deletions(-)

diff --git a/src/yapcad/assembly/constraint.py b/src/yapcad/assembly/constraint.py
index 28cdd96..ed01409 100644
--- a/src/yapcad/assembly/constraint.py
+++ b/src/yapcad/assembly/constraint.py
@@ -217,6 +217,10 @@ class Constraint:
     description: str = ""
     severity: str = "error"
 
+    def __post_init__(self):
+        if self.severity not in ("error", "warning", "info"):
+            raise ValueError(f"Unknown constraint severity: {self.severity!r}")
+
     def evaluate(self, datum_world: 'Datum') -> ConstraintResult:
         """Evaluate this constraint against a datum in world coordinates.
 
diff --git a/src/yapcad/assembly/intent.py b/src/yapcad/assembly/intent.py
index 83386ac..61d10e3 100644
--- a/src/yapcad/assembly/intent.py
+++ b/src/yapcad/assembly/intent.py
@@ -193,9 +193,12 @@ class ReferenceGeometry:
             z_coord = self.center[2] + r * math.sin(z)
             return (x, y, z_coord)
 
-        else:
+        elif self.geometry_type == "point":
             return self.center if self.center else (0, 0, 0)
 
+        else:
+            raise ValueError(f"No surface point on a {self.geometry_type!r}")
+
     def get_normal_at(
         self,
         point: Tuple[float, float, float]
@@ -246,7 +249,7 @@ class ReferenceGeometry:
                 return (dx / mag, dy / mag, dz / mag)
 
         else:
-            return (0, 0, 1)
+            raise ValueError(f"No surface normal on a {self.geometry_type!r}")
 
 
 # =============================================================================
@@ -375,6 +378,13 @@ class ContactRequirement(FunctionalRequirement):
                 "description": f"{self.part} surface flush with {self.target}",
             })
 
+        else:
+            constraints.append({
+                "name": f"{self.name}_unsupported_target",
+                "type": "error",
+                "message": f"Contact with {target_geom.geometry_type!r} geometry '{self.target}' is not supported",
+            })
+
         return constraints
 
     def get_derived_parameters(self) -> List[str]:
@@ -428,7 +438,7 @@ class RollRequirement(FunctionalRequirement):
         elif isinstance(self.roll_direction, (tuple, list)):
             roll_dir = tuple(self.roll_direction)
         else:
-            roll_dir = (0, 0, 1)  # Default
+            raise ValueError(f"Unknown roll direction: {self.roll_direction!r}")
 
         # For rolling along Z in a cylindrical tube, axis must be TANGENT
         if roll_dir == (0, 0, 1) or roll_dir == (0, 0, -1):
@@ -557,6 +567,9 @@ class AxisOrientationRequirement(FunctionalRequirement):
                 "direction": self.orientation,
             })
 
+        else:
+            raise ValueError(f"Unknown orientation: {self.orientation!r}")
+
         return constraints
 
 
@@ -751,6 +764,8 @@ class Connection:
             spec["mate_type"] = "CYLINDRICAL"
         elif self.joint_type == "spherical":
             spec["mate_type"] = "SPHERICAL"
+        else:
+            raise ValueError(f"Unknown joint type: {self.joint_type!r}")
 
         return spec
 
diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 223e629..5d52dae 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -718,6 +718,10 @@ class KinematicConstraint:
     # Custom validator
     validator: Optional[Callable[[Dict[str, Any]], ConstraintEvaluationResult]] = None
 
+    def __post_init__(self):
+        if self.severity not in ("error", "warning", "info"):
+            raise ValueError(f"Unknown constraint severity: {self.severity!r}")
+
     def _get_local_axis(self, axis_spec: Union[str, Tuple[float, float, float]]) -> Optional[np.ndarray]:
         """Convert axis specification to unit vector.
 
diff --git a/src/yapcad/assembly/resolver.py b/src/yapcad/assembly/resolver.py
index 7b6b6c8..bc29964 100644
--- a/src/yapcad/assembly/resolver.py
+++ b/src/yapcad/assembly/resolver.py
@@ -214,8 +214,10 @@ class AssemblyResolver(ABC):
         elif policy == "warn":
             warnings.append(message)
             log.warning("resolver: %s", message)
-        else:  # ignore
+        elif policy == "ignore":
             log.debug("resolver (ignored): %s", message)
+        else:
+            errors.append(f"{message} (unknown policy '{policy}')")
 
 
 # ---------------------------------------------------------------------------
diff --git a/src/yapcad/ezdxf_drawable.py b/src/yapcad/ezdxf_drawable.py
index c63d6e7..b184deb 100644
--- a/src/yapcad/ezdxf_drawable.py
+++ b/src/yapcad/ezdxf_drawable.py
@@ -196,16 +196,16 @@ class ezdxfDraw(drawable.Drawable):
         else:
             color = 256 # by layer
 
-        alignment = [];
-        if align == 'LEFT':
+        if isinstance(align, TextEntityAlignment):
+            alignment = align
+        elif align == 'LEFT':
             alignment = TextEntityAlignment.LEFT
         elif align == 'CENTER':
             alignment = TextEntityAlignment.CENTER
         elif align == 'RIGHT':
             alignment = TextEntityAlignment.RIGHT
         else:
-            ## default alignment is left
-            alignment = TextEntityAlignment.LEFT
+            raise ValueError(f'bad text alignment: {align}')
         
         dxfattr = dict()
         if 'style' in attr:
diff --git a/src/yapcad/geom3d_util.py b/src/yapcad/geom3d_util.py
index 267e002..4113953 100644
--- a/src/yapcad/geom3d_util.py
+++ b/src/yapcad/geom3d_util.py
@@ -2326,6 +2326,8 @@ def sweep_adaptive(profile, spine, *, inner_profiles=None,
     Returns:
         yapCAD solid created by lofting between adapted sections
     """
+    if frame_mode not in ('minimal_twist', 'frenet', 'custom'):
+        raise ValueError(f"unknown frame_mode: {frame_mode!r}")
     if not occ_available():
         raise RuntimeError("sweep_adaptive requires pythonocc-core")
 
diff --git a/src/yapcad/manufacturing/rings.py b/src/yapcad/manufacturing/rings.py
index 0a3e283..c8b60b7 100644
--- a/src/yapcad/manufacturing/rings.py
+++ b/src/yapcad/manufacturing/rings.py
@@ -95,8 +95,9 @@ def _rotate_path3d(
             return (x, y * c - z * s, y * s + z * c)
         elif axis.lower() == "y":
             return (x * c + z * s, y, -x * s + z * c)
-        else:  # z axis
+        elif axis.lower() == "z":
             return (x * c - y * s, x * s + y * c, z)
+        raise ValueError(f"Unknown rotation axis: {axis!r}")
 
     new_segments = []
     for seg in path.get('segments', []):
@@ -399,7 +400,7 @@ def _rotate_point_and_direction(
         dx_new = dx * c + dz * s
         dz_new = -dx * s + dz * c
         dx, dz = dx_new, dz_new
-    else:  # z axis
+    elif axis.lower() == "z":
         # Rotate around Z axis
         px_new = px * c - py * s
         py_new = px * s + py * c
@@ -408,6 +409,8 @@ def _rotate_point_and_direction(
         dx_new = dx * c - dy * s
         dy_new = dx * s + dy * c
         dx, dy = dx_new, dy_new
+    else:
+        raise ValueError(f"Unknown rotation axis: {axis!r}")
 
     return px, py, pz, dx, dy, dz
 
diff --git a/src/yapcad/package/analysis/face_naming.py b/src/yapcad/package/analysis/face_naming.py
index 724e4e3..0c1fef2 100644
--- a/src/yapcad/package/analysis/face_naming.py
+++ b/src/yapcad/package/analysis/face_naming.py
@@ -143,7 +143,9 @@ class ByPositionSelector(FaceSelector):
             below: Select faces with coordinate below this value
             tolerance: Tolerance for at_min/at_max comparison
         """
-        self.axis_idx = {"x": 0, "y": 1, "z": 2}.get(axis.lower(), 2)
+        if axis.lower() not in ("x", "y", "z"):
+            raise ValueError(f"Unknown axis: {axis!r}")
+        self.axis_idx = {"x": 0, "y": 1, "z": 2}[axis.lower()]
         self.at_min = at_min
         self.at_max = at_max
         self.above = above
diff --git a/src/yapcad/package/analysis/gmsh_mesher.py b/src/yapcad/package/analysis/gmsh_mesher.py
index 6867fde..c0e5c48 100644
--- a/src/yapcad/package/analysis/gmsh_mesher.py
+++ b/src/yapcad/package/analysis/gmsh_mesher.py
@@ -696,10 +696,10 @@ class GmshMesher:
             gmsh.write(str(msh_path))
             # Note: Actual XDMF conversion requires meshio or dolfinx
             return msh_path
-        elif format == "su2":
-            gmsh.write(str(path))
-        else:
-            gmsh.write(str(path))
+        # Gmsh takes the format from the extension
+        if path.suffix.lstrip(".").lower() != format:
+            path = path.with_suffix(f".{format}")
+        gmsh.write(str(path))
 
         return path
 
diff --git a/src/yapcad/package/analysis/mechatron_fea_setup.py b/src/yapcad/package/analysis/mechatron_fea_setup.py
index c07c816..d130fc4 100644
--- a/src/yapcad/package/analysis/mechatron_fea_setup.py
+++ b/src/yapcad/package/analysis/mechatron_fea_setup.py
@@ -596,6 +596,8 @@ def _generate_bolts_from_datums(
         bcr = str(yaml_group.get("bolt_circle_ref", ""))
         hole_prefix = "top_bolt_hole" if "top" in bcr else "bot_bolt_hole"
         orientation_kind = str(yaml_group.get("orientation", "")).lower()
+        if orientation_kind not in ("", "axial", "radial"):
+            raise ValueError(f"Unknown bolt orientation: {orientation_kind!r}")
     else:
         # No YAML match: default to parent-as-owner; infer top/bot from iface.
         owner_id = pp
diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index f202098..11444fe 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -363,6 +363,8 @@ class YapCADNativeAdapter(AnalysisAdapter):
         }
 
         # Add axis-specific keys
+        if axis not in ("x", "y", "z", "all"):
+            raise ValueError(f"Unknown bbox axis: {axis}")
         if axis == "x" or axis == "all":
             metrics["bbox.x"] = width
             metrics[f"bbox.x_{units}"] = width
-- 
2.43.0


From 1fcda627472f0bfd5ce72a6424195d5afee2ad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:00 +0000
Subject: [PATCH 81/93] fix: mirror_brep_solid refuses a plane it does not know

---
 src/yapcad/brep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/brep.py b/src/yapcad/brep.py
index 616c1e4..a0a4073 100644
--- a/src/yapcad/brep.py
+++ b/src/yapcad/brep.py
@@ -215,7 +215,7 @@ def mirror_brep_solid(solid: list, plane: str) -> None:
     }
     normal = mapping.get(plane)
     if normal is None:
-        return
+        raise ValueError(f'bad reflection plane: {plane!r}')
     trsf = gp_Trsf()
     trsf.SetMirror(gp_Ax2(gp_Pnt(0.0, 0.0, 0.0), gp_Dir(*normal)))
     _apply_trsf_to_brep(solid, trsf)
-- 
2.43.0


From 53fd76a4e58b4cffefeb3bcb730d43264906cb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:38 +0000
Subject: [PATCH 82/93] fix: a bounding box check fails when one of the parts
 has none

---
 src/yapcad/package/analysis/yapcad_native.py | 39 ++++++++++----------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/src/yapcad/package/analysis/yapcad_native.py b/src/yapcad/package/analysis/yapcad_native.py
index 11444fe..1aea801 100644
--- a/src/yapcad/package/analysis/yapcad_native.py
+++ b/src/yapcad/package/analysis/yapcad_native.py
@@ -312,25 +312,26 @@ class YapCADNativeAdapter(AnalysisAdapter):
         combined_bbox = None
         for solid in solids:
             bbox = solidbbox(solid)
-            if bbox:
-                if combined_bbox is None:
-                    combined_bbox = bbox
-                else:
-                    # Merge bounding boxes
-                    combined_bbox = [
-                        [
-                            min(combined_bbox[0][0], bbox[0][0]),  # xmin
-                            min(combined_bbox[0][1], bbox[0][1]),  # ymin
-                            min(combined_bbox[0][2], bbox[0][2]),  # zmin
-                            1,
-                        ],
-                        [
-                            max(combined_bbox[1][0], bbox[1][0]),  # xmax
-                            max(combined_bbox[1][1], bbox[1][1]),  # ymax
-                            max(combined_bbox[1][2], bbox[1][2]),  # zmax
-                            1,
-                        ],
-                    ]
+            if not bbox:
+                raise ValueError("Could not compute bounding box for one or more parts")
+            if combined_bbox is None:
+                combined_bbox = bbox
+            else:
+                # Merge bounding boxes
+                combined_bbox = [
+                    [
+                        min(combined_bbox[0][0], bbox[0][0]),  # xmin
+                        min(combined_bbox[0][1], bbox[0][1]),  # ymin
+                        min(combined_bbox[0][2], bbox[0][2]),  # zmin
+                        1,
+                    ],
+                    [
+                        max(combined_bbox[1][0], bbox[1][0]),  # xmax
+                        max(combined_bbox[1][1], bbox[1][1]),  # ymax
+                        max(combined_bbox[1][2], bbox[1][2]),  # zmax
+                        1,
+                    ],
+                ]
 
         if not combined_bbox:
             raise ValueError("Could not compute bounding box")
-- 
2.43.0


From bd39570108b64aec1a9a95a3536a1bb70cfcda3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:37 +0000
Subject: [PATCH 83/93] fix: apply_mate_axis_rotation refuses an axis it does
 not know

---
 src/yapcad/assembly/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index f5e4d59..4b725c2 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -685,7 +685,7 @@ def apply_mate_axis_rotation(transform: Any, mate_axis: str) -> Any:
         new_tf = apply_mate_axis_rotation(transform, "Y")
     """
     if mate_axis not in MATE_AXIS_ROTATIONS:
-        return transform
+        raise ValueError(f"Unknown mate_axis: {mate_axis!r}")
 
     R_axis = MATE_AXIS_ROTATIONS[mate_axis]
     result = transform.copy()
-- 
2.43.0


From 0ddd35de3322c377e7c426d97c5fce39118c969d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:04 +0000
Subject: [PATCH 84/93] fix: the schema validators examine both spellings of
 boundaryConditions and report words that are no text

---
 src/yapcad/package/analysis/schema.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/yapcad/package/analysis/schema.py b/src/yapcad/package/analysis/schema.py
index 677541d..bcedd3d 100644
--- a/src/yapcad/package/analysis/schema.py
+++ b/src/yapcad/package/analysis/schema.py
@@ -220,7 +220,7 @@ def validate_acceptance_criterion(
     if "comparison" in criterion:
         comparison = criterion["comparison"]
         valid_ops = {op.value for op in ComparisonOp}
-        if comparison not in valid_ops:
+        if not isinstance(comparison, str) or comparison not in valid_ops:
             errors.append(SchemaError(
                 path=f"{path}.comparison",
                 message=f"Invalid comparison '{comparison}', expected one of: {', '.join(sorted(valid_ops))}",
@@ -288,7 +288,7 @@ def validate_load(
         valid = False
     else:
         load_type = load["type"]
-        if load_type not in VALID_LOAD_TYPES:
+        if not isinstance(load_type, str) or load_type not in VALID_LOAD_TYPES:
             errors.append(SchemaError(
                 path=f"{load_path}.type",
                 message=f"Invalid load type '{load_type}', expected one of: {', '.join(sorted(VALID_LOAD_TYPES))}",
@@ -334,7 +334,7 @@ def validate_boundary_condition(
         valid = False
     else:
         bc_type = bc["type"]
-        if bc_type not in VALID_BC_TYPES:
+        if not isinstance(bc_type, str) or bc_type not in VALID_BC_TYPES:
             errors.append(SchemaError(
                 path=f"{bc_path}.type",
                 message=f"Invalid BC type '{bc_type}', expected one of: {', '.join(sorted(VALID_BC_TYPES))}",
@@ -424,7 +424,7 @@ def validate_check_section(
     else:
         prop = check["property"]
         valid_props = VALID_CHECK_PROPERTIES.get(kind, set())
-        if prop not in valid_props:
+        if not isinstance(prop, str) or prop not in valid_props:
             errors.append(SchemaError(
                 path=f"{path}.property",
                 message=f"Invalid property '{prop}' for kind '{kind}', expected one of: {', '.join(sorted(valid_props))}",
@@ -456,7 +456,7 @@ def validate_plan(data: Dict[str, Any]) -> ValidationReport:
     # Validate kind
     kind = data["kind"]
     valid_kinds = {k.value for k in ValidationKind}
-    if kind not in valid_kinds:
+    if not isinstance(kind, str) or kind not in valid_kinds:
         errors.append(SchemaError(
             path="kind",
             message=f"Invalid kind '{kind}', expected one of: {', '.join(sorted(valid_kinds))}",
@@ -527,11 +527,9 @@ def validate_plan(data: Dict[str, Any]) -> ValidationReport:
                         ))
 
         # Validate boundary conditions
-        bc_key = "boundaryConditions"
-        if bc_key not in data:
-            bc_key = "boundary_conditions"
-
-        if bc_key in data:
+        for bc_key in ("boundaryConditions", "boundary_conditions"):
+            if bc_key not in data:
+                continue
             bcs = data[bc_key]
             if not isinstance(bcs, list):
                 errors.append(SchemaError(
@@ -599,7 +597,7 @@ def validate_result(data: Dict[str, Any]) -> ValidationReport:
     # Validate status
     status = data["status"]
     valid_statuses = {s.value for s in ResultStatus}
-    if status not in valid_statuses:
+    if not isinstance(status, str) or status not in valid_statuses:
         errors.append(SchemaError(
             path="status",
             message=f"Invalid status '{status}', expected one of: {', '.join(sorted(valid_statuses))}",
-- 
2.43.0


From 0d79cd1200d9198a4ef1a51f951fc339cf6d4c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:04 +0000
Subject: [PATCH 85/93] fix: a plan's boundary conditions are read under both
 spellings

---
 src/yapcad/package/analysis/base.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/package/analysis/base.py b/src/yapcad/package/analysis/base.py
index 83d40f6..7844264 100644
--- a/src/yapcad/package/analysis/base.py
+++ b/src/yapcad/package/analysis/base.py
@@ -156,9 +156,8 @@ def load_plan(path: Path | str) -> AnalysisPlan:
 
     # normalise keys
     loads = data.get("loads", []) or []
-    boundary_conditions = data.get("boundaryConditions")
-    if boundary_conditions is None:
-        boundary_conditions = data.get("boundary_conditions", [])
+    boundary_conditions = list(data.get("boundaryConditions") or [])
+    boundary_conditions += data.get("boundary_conditions") or []
 
     known_keys: Iterable[str] = {
         "id",
@@ -188,7 +187,7 @@ def load_plan(path: Path | str) -> AnalysisPlan:
         geometry=dict(data.get("geometry", {})),
         materials=dict(data.get("materials", {})),
         loads=list(loads),
-        boundary_conditions=list(boundary_conditions or []),
+        boundary_conditions=boundary_conditions,
         acceptance=dict(data.get("acceptance", {})),
         backend_options=dict(data.get("backendOptions", {})),
         execution=execution,
-- 
2.43.0


From e5bcad1fbec6cdf08a00ceff5593ee10710f006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:04 +0000
Subject: [PATCH 86/93] fix: an analysis summary names its plan as the result
 schema says

---
 src/yapcad/package/analysis/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/yapcad/package/analysis/cli.py b/src/yapcad/package/analysis/cli.py
index a2360cd..d0cd616 100644
--- a/src/yapcad/package/analysis/cli.py
+++ b/src/yapcad/package/analysis/cli.py
@@ -109,6 +109,7 @@ def analyze_package(package_path: Path | str, plan_path: Path | str, *, status:
         "timestamp": result.timestamp,
     }
     summary_payload.setdefault("plan", plan.plan_id)
+    summary_payload.setdefault("plan_id", plan.plan_id)
     summary_payload.setdefault("status", result.status)
     summary_payload.setdefault("backend", result.backend)
     summary_payload.setdefault("timestamp", result.timestamp)
-- 
2.43.0


From 5d168e600ad5b282715f7e123c596c12da0f7e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:34 +0000
Subject: [PATCH 87/93] fix: the mate solver remembers a transform for the
 mate, axis and parent it was solved for

---
 src/yapcad/assembly/solver.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/yapcad/assembly/solver.py b/src/yapcad/assembly/solver.py
index 4b725c2..f811552 100644
--- a/src/yapcad/assembly/solver.py
+++ b/src/yapcad/assembly/solver.py
@@ -238,7 +238,7 @@ class MateConstraintSolver:
         self.tolerance = tolerance
         self.angle_tolerance = angle_tolerance
         self._use_cache = use_cache
-        self._cache: Dict[str, MateMateSolveResult] = {}
+        self._cache: Dict[tuple, MateMateSolveResult] = {}
 
     def solve_mate(
         self,
@@ -257,7 +257,11 @@ class MateConstraintSolver:
         part's coordinate frame such that the mate constraint is satisfied.
         """
         # Check cache
-        cache_key = f"{mate.name}:{mate_axis}"
+        parent_key = (
+            None if parent_world_transform is None
+            else np.asarray(parent_world_transform, dtype=float).tobytes()
+        )
+        cache_key = (mate.name, mate_axis, repr(mate), parent_key)
         if self._use_cache and cache_key in self._cache:
             return self._cache[cache_key]
 
@@ -397,8 +401,8 @@ class MateConstraintSolver:
         if mate_name is None:
             self._cache.clear()
         else:
-            # Remove all cache entries starting with mate_name
-            keys_to_remove = [k for k in self._cache if k.startswith(mate_name)]
+            # Remove all cache entries of mate_name
+            keys_to_remove = [k for k in self._cache if k[0] == mate_name]
             for key in keys_to_remove:
                 del self._cache[key]
 
-- 
2.43.0


From 687caa76ee94a98aeddcd6223fc54c2b072c7560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:34 +0000
Subject: [PATCH 88/93] fix: a datum source that was not found is looked for
 again

---
 src/yapcad/assembly/datum_registry.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/yapcad/assembly/datum_registry.py b/src/yapcad/assembly/datum_registry.py
index d5693aa..a537d08 100644
--- a/src/yapcad/assembly/datum_registry.py
+++ b/src/yapcad/assembly/datum_registry.py
@@ -298,7 +298,9 @@ class DatumRegistry:
             # Try as a part name in already-loaded sources
             self._try_part_name_lookup(source)
 
-        self._loaded_sources.add(source)
+        # What was not found is looked for again
+        if source in self._sources:
+            self._loaded_sources.add(source)
 
     def _find_source_file(self, source: str) -> Optional[str]:
         """Find the source file in search paths.
@@ -421,13 +423,6 @@ class DatumRegistry:
                 self._sources[source] = src
                 return
 
-        # Not found - create empty source
-        self._sources[source] = DatumSource(
-            source_id=source,
-            source_type="not_found",
-            datums={}
-        )
-
     def _datum_from_dict(self, name: str, data: Dict[str, Any]) -> Datum:
         """Create a Datum from a dictionary representation.
 
-- 
2.43.0


From f3918413b610e0bfe321d0489e7cc874f5bcefe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:34 +0000
Subject: [PATCH 89/93] fix: a remembered BREP shape is used only for the data
 it was read from

---
 src/yapcad/brep.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/yapcad/brep.py b/src/yapcad/brep.py
index a0a4073..54bc0c9 100644
--- a/src/yapcad/brep.py
+++ b/src/yapcad/brep.py
@@ -76,7 +76,8 @@ except ImportError as exc:  # pragma: no cover - handled during runtime detectio
 from yapcad.geom import point
 from yapcad.metadata import ensure_solid_id, get_solid_metadata
 
-_BREP_SOLID_CACHE: dict[str, "BrepSolid"] = {}
+# The data a shape was read from, and the shape, by the id of the solid
+_BREP_SOLID_CACHE: dict[str, tuple[str, "BrepSolid"]] = {}
 
 
 def occ_available() -> bool:
@@ -135,7 +136,7 @@ def attach_brep_to_solid(solid: list, brep: "BrepSolid") -> None:
         "encoding": "brep-ascii-base64",
         "data": encoded,
     }
-    _BREP_SOLID_CACHE[solid_id] = brep
+    _BREP_SOLID_CACHE[solid_id] = (encoded, brep)
 
 
 def brep_from_solid(solid: list) -> Optional["BrepSolid"]:
@@ -148,15 +149,15 @@ def brep_from_solid(solid: list) -> Optional["BrepSolid"]:
     solid_id = meta.get("entityId")
     if not solid_id:
         return None
-    cached = _BREP_SOLID_CACHE.get(solid_id)
-    if cached:
-        return cached
     brep_info = meta.get("brep")
     if not brep_info:
         return None
     data = brep_info.get("data")
     if not data:
         return None
+    cached = _BREP_SOLID_CACHE.get(solid_id)
+    if cached and cached[0] == data:
+        return cached[1]
     try:
         decoded = base64.b64decode(data)
     except Exception:
@@ -168,7 +169,7 @@ def brep_from_solid(solid: list) -> Optional["BrepSolid"]:
     # Don't force-cast to Solid - shape may be a Compound (from disconnected unions)
     # BrepSolid.tessellate() uses TopExp_Explorer which handles both
     brep = BrepSolid(shape)
-    _BREP_SOLID_CACHE[solid_id] = brep
+    _BREP_SOLID_CACHE[solid_id] = (data, brep)
     return brep
 
 
-- 
2.43.0


From f39572dba0b12a48f85078e3f1b211a7410688c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:24 +0000
Subject: [PATCH 90/93] fix: a clearance is measured, not taken as kept

---
 src/yapcad/assembly/intent.py | 40 ++++++++++++++++++++++++++++++-----
 1 file changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/yapcad/assembly/intent.py b/src/yapcad/assembly/intent.py
index 61d10e3..67abea2 100644
--- a/src/yapcad/assembly/intent.py
+++ b/src/yapcad/assembly/intent.py
@@ -60,6 +60,7 @@ License: MIT
 
 from __future__ import annotations
 
+import itertools
 import math
 from abc import ABC, abstractmethod
 from dataclasses import dataclass, field
@@ -818,13 +819,42 @@ class Clearance:
         Returns:
             ClearanceResult with validation status
         """
-        # Simplified bounding box check
-        # Full implementation would use actual geometry
+        # Simplified bounding box check: the boxes are never further apart than
+        # what they enclose, so a clearance of the boxes is one of the parts
+        boxes = []
+        for part in (self.part_a, self.part_b):
+            bounds = part_bounds.get(part)
+            bounds = getattr(bounds, "bounds", bounds)
+            if bounds is None:
+                return ClearanceResult(
+                    satisfied=False,
+                    actual_distance=math.nan,
+                    required_distance=self.min_distance,
+                    message=f"Clearance {self.part_a} <-> {self.part_b}: no bounds for '{part}'",
+                )
+            matrix = transforms.get(part)
+            matrix = getattr(matrix, "matrix", matrix)
+            corners = list(itertools.product(*([bounds[0][i], bounds[1][i]] for i in range(3))))
+            if matrix is not None:
+                corners = [
+                    [sum(matrix[i][j] * c[j] for j in range(3)) + matrix[i][3] for i in range(3)]
+                    for c in corners
+                ]
+            boxes.append(([min(c[i] for c in corners) for i in range(3)],
+                          [max(c[i] for c in corners) for i in range(3)]))
+
+        (min_a, max_a), (min_b, max_b) = boxes
+        gaps = [max(min_b[i] - max_a[i], min_a[i] - max_b[i]) for i in range(3)]
+        # Negative where the boxes overlap
+        distance = float(math.hypot(*(max(g, 0.0) for g in gaps)) or max(gaps))
+        satisfied = bool(distance >= self.min_distance)
+
         return ClearanceResult(
-            satisfied=True,
-            actual_distance=self.min_distance + 1.0,
+            satisfied=satisfied,
+            actual_distance=distance,
             required_distance=self.min_distance,
-            message=f"Clearance {self.part_a} <-> {self.part_b}: OK",
+            message=f"Clearance {self.part_a} <-> {self.part_b}: "
+                    + ("OK" if satisfied else f"{distance:.3f}mm, required {self.min_distance:.3f}mm"),
         )
 
 
-- 
2.43.0


From 90cee7dac0761090ce5e5d41307d16c2ff998e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:43 +0000
Subject: [PATCH 91/93] fix: a constraint on a face that is not found fails

---
 src/yapcad/assembly/kinematic_integration.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/yapcad/assembly/kinematic_integration.py b/src/yapcad/assembly/kinematic_integration.py
index 5d52dae..fb95262 100644
--- a/src/yapcad/assembly/kinematic_integration.py
+++ b/src/yapcad/assembly/kinematic_integration.py
@@ -944,6 +944,13 @@ class KinematicConstraint:
         self._face_pos_b = face_pos_b
         self._face_warnings = face_warnings
 
+        # A face that is not known is not examined: its part's origin is not the face
+        if face_warnings:
+            return ConstraintEvaluationResult(
+                satisfied=False,
+                error_message=f"{self.name}: {'; '.join(face_warnings)}"
+            )
+
         # Dispatch to appropriate evaluation method
         if self.constraint_type == KinematicConstraintType.COINCIDENT:
             return self._evaluate_coincident(tf_a, tf_b)
-- 
2.43.0


From 5d6635595ed0ad7e7698f870ce1cf09240d4e821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:56:43 +0000
Subject: [PATCH 92/93] fix: a BREP shape that could not be moved is not
 checked where it was

---
 src/yapcad/collision/detector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/collision/detector.py b/src/yapcad/collision/detector.py
index d6e709a..49c5c5b 100644
--- a/src/yapcad/collision/detector.py
+++ b/src/yapcad/collision/detector.py
@@ -483,7 +483,8 @@ class CollisionDetector:
             if transformer.IsDone():
                 return transformer.Shape()
 
-        return shape
+        # Not moved to where the part is: there is nothing to check
+        return None
 
     def _check_mesh_collision(
         self,
-- 
2.43.0


From e8acd871f2fcc08e683cc1f41eb020a38e9c6940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:24:33 +0000
Subject: [PATCH 93/93] fix: the box of a shell holds the mesh that is searched

---
 src/yapcad/native_brep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/yapcad/native_brep.py b/src/yapcad/native_brep.py
index df934fd..e817307 100644
--- a/src/yapcad/native_brep.py
+++ b/src/yapcad/native_brep.py
@@ -1330,7 +1330,8 @@ class TopologyGraph:
 
             # Tessellate the surface to get vertex positions
             if is_analytic_surface(surface):
-                mesh = tessellate_surface(surface, u_divisions=8, v_divisions=8)
+                # the divisions of tessellate_shell: the box must hold its mesh
+                mesh = tessellate_surface(surface, u_divisions=16, v_divisions=16)
                 if mesh and len(mesh) > 1:
                     verts = mesh[1]
                     for v in verts:
-- 
2.43.0

