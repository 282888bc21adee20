From 9e4cad3b073fb3a5add6a15523b69e3e2164d223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:43 +0000
Subject: [PATCH 01/40] fix: report the actual exit status when Popen reaps the
 process first

---
 shellous/runner.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 0d74355..7c3d7ea 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -440,11 +440,19 @@ class Runner:
                 return CANCELLED_EXIT_CODE
             return None
         code = self._proc.returncode
-        if code == _UNKNOWN_EXIT_CODE and self._last_signal is not None:
-            # After sending a signal, `waitpid` may fail to locate the child
-            # process. In this case, map the status to the last signal we sent.
+        if code == _UNKNOWN_EXIT_CODE:
+            # When a signal is sent to a process that already exited, `Popen`
+            # itself may call `waitpid` before the child watcher does. The
+            # actual exit status is then only known to the `Popen` object.
             # For more on this, see https://github.com/python/cpython/issues/87744
-            return -self._last_signal  # pylint: disable=invalid-unary-operand-type
+            popen = self._proc._transport.get_extra_info(  # pyright: ignore
+                "subprocess"
+            )
+            if popen is not None and popen.returncode is not None:
+                return popen.returncode
+            if self._last_signal is not None:
+                # Otherwise, map the status to the last signal we sent.
+                return -self._last_signal  # pylint: disable=invalid-unary-operand-type
         return code
 
     @property
-- 
2.43.0


From 5aebb0bac3e9c1e6a132a56ba30b173d7f53706c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 02/40] fix: do not close pipeline descriptors that are owned
 by the member tasks

---
 shellous/runner.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 7c3d7ea..4c66138 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1148,10 +1148,11 @@ class PipeRunner:
             cmds = self._setup_pipeline(open_fds)
 
             if self._capturing:
-                stdin, stdout, stderr = await self._setup_capturing(cmds)
+                stdin, stdout, stderr = await self._setup_capturing(cmds, open_fds)
             else:
                 for cmd in cmds:
                     self.add_task(cmd.coro())
+                open_fds.clear()  # now owned by the tasks
 
             self.stdin = stdin
             self.stdout = stdout
@@ -1186,7 +1187,11 @@ class PipeRunner:
         return cmds
 
     @log_method(LOG_DETAIL)
-    async def _setup_capturing(self, cmds: "list[shellous.Command[Any]]"):
+    async def _setup_capturing(
+        self,
+        cmds: "list[shellous.Command[Any]]",
+        open_fds: list[int],
+    ):
         """Set up capturing and return (stdin, stdout, stderr) streams."""
         loop = asyncio.get_event_loop()
         first_fut = loop.create_future()
@@ -1202,6 +1207,10 @@ class PipeRunner:
             self.add_task(coro, str(i + 1))
         self.add_task(last_coro, str(len(cmds) - 1))
 
+        # The tasks own the pipe's file descriptors from now on. Each task will
+        # close its own file descriptors, even if the launch fails.
+        open_fds.clear()
+
         # When capturing, we need the first and last commands in the
         # pipe to signal when they are ready.
         first_ready, last_ready = await asyncio.gather(first_fut, last_fut)
-- 
2.43.0


From 44edfd1b7c30d368057f5b6e25242289757ab279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 03/40] fix: do not wait forever for a pipeline member that
 failed to launch

---
 shellous/runner.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 4c66138..1a7621b 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1202,10 +1202,15 @@ class PipeRunner:
         middle_coros = [cmd.coro() for cmd in cmds[1:-1]]
 
         # Tag each task name with the index of the command in the pipe.
-        self.add_task(first_coro, "0")
+        first_task = self.add_task(first_coro, "0")
         for i, coro in enumerate(middle_coros):
             self.add_task(coro, str(i + 1))
-        self.add_task(last_coro, str(len(cmds) - 1))
+        last_task = self.add_task(last_coro, str(len(cmds) - 1))
+
+        # If a task ends without signaling that it's ready (e.g. because the
+        # launch failed), stop waiting for it.
+        _link_task(first_task, first_fut)
+        _link_task(last_task, last_fut)
 
         # The tasks own the pipe's file descriptors from now on. Each task will
         # close its own file descriptors, even if the launch fails.
@@ -1258,6 +1263,22 @@ class PipeRunner:
         return result.output
 
 
+def _link_task(task: asyncio.Task[Any], future: asyncio.Future[Any]):
+    "Make sure that `future` is done when `task` is done."
+
+    def _done(task: asyncio.Task[Any]):
+        if future.done():
+            return
+        if task.cancelled():
+            future.cancel()
+        else:
+            future.set_exception(
+                task.exception() or RuntimeError("task finished early")
+            )
+
+    task.add_done_callback(_done)
+
+
 def _uses_process_substitution(cmd: "shellous.Command[Any]") -> bool:
     "Return True if command uses process substitution."
     return any(
-- 
2.43.0


From 6e0da1b5ead7a1dd86a987bf8ca07b42d85f239f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 04/40] fix: complete uninterrupted() even if the task is
 cancelled repeatedly

---
 shellous/util.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/shellous/util.py b/shellous/util.py
index e3e23b3..9b84d51 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -141,13 +141,22 @@ def poll_wait_pid(proc: Process) -> bool:
 async def uninterrupted(coro: Coroutine[Any, Any, _T]) -> _T:
     "Run a coroutine so it completes even if the current task is cancelled."
     task = asyncio.create_task(coro)
-    try:
-        return await asyncio.shield(task)
+    cancelled = None
+
+    while True:
+        try:
+            result = await asyncio.shield(task)
+            break
+        except asyncio.CancelledError as ex:
+            if task.cancelled():
+                raise
+            # The current task may be cancelled more than once.
+            cancelled = ex
 
-    except asyncio.CancelledError:
-        if not task.cancelled():
-            await task
-        raise
+    if cancelled is not None:
+        raise cancelled
+
+    return result
 
 
 async def context_aenter(owner: object, ctxt_manager: AsyncContextManager[_T]) -> _T:
-- 
2.43.0


From f59beaa87461137a5ebfac1fa2580bc2b7fa889f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:45 +0000
Subject: [PATCH 05/40] fix: do not swallow a cancellation that arrives while
 collecting tasks

---
 shellous/harvest.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 0e71288..624206c 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -143,8 +143,10 @@ async def harvest_wait(
         _consume_exceptions(tasks)
         raise
 
-    if pending:
-        await _cancel_wait(pending, trustee, cancel_timeout)
+    if pending and await _cancel_wait(pending, trustee, cancel_timeout):
+        # We were cancelled while collecting the pending tasks.
+        _consume_exceptions(tasks)
+        raise asyncio.CancelledError()
 
     assert all(task.done() for task in tasks)
 
@@ -160,8 +162,12 @@ async def _cancel_wait(
     trustee: Any,
     cancel_timeout: float,
     cancel_finish: bool = False,
-):
-    "Cancel tasks and wait for them to finish."
+) -> bool:
+    """Cancel tasks and wait for them to finish.
+
+    Return True if cancelled while waiting; the caller must not ignore this
+    unless it is already raising a CancelledError.
+    """
     try:
         if not cancel_finish:
             # Cancel all tasks.
@@ -169,11 +175,13 @@ async def _cancel_wait(
                 task.cancel()
 
         await _cancel_waiter(tasks, trustee, cancel_timeout)
+        return False
 
     except asyncio.CancelledError:
         # Retry once if _cancel_wait is itself cancelled.
         LOGGER.warning("Harvest._cancel_wait cancelled itself trustee=%r", trustee)
         await _cancel_waiter(tasks, trustee, cancel_timeout)
+        return True
 
 
 async def _cancel_waiter(
-- 
2.43.0


From 8a43e0fdf396946e341afd7a9236cf1d5b02ac8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:10 +0000
Subject: [PATCH 06/40] fix: cancel each pipeline member only once when the
 pipeline is stopped

---
 shellous/harvest.py |  8 +++++++-
 shellous/runner.py  | 13 +++++++++++--
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 624206c..45c460b 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -52,6 +52,7 @@ async def harvest_results(
     timeout: Optional[float] = None,
     cancel_timeout: float = _CANCEL_TIMEOUT,
     trustee: Any = None,
+    return_when: str = asyncio.FIRST_EXCEPTION,
 ) -> tuple[bool, list[Any]]:
     """Run a bunch of awaitables as tasks and return (cancelled, results).
 
@@ -73,6 +74,9 @@ async def harvest_results(
 
     If `harvest_results` is cancelled itself, all awaitables are cancelled and
     `cancelled` is returned as True.
+
+    Set `return_when` to `asyncio.ALL_COMPLETED` to let the other awaitables
+    finish when an awaitable raises an exception.
     """
     tasks = [asyncio.ensure_future(item) for item in aws]
     cancelled = False
@@ -82,6 +86,7 @@ async def harvest_results(
             timeout=timeout,
             cancel_timeout=cancel_timeout,
             trustee=trustee,
+            return_when=return_when,
         )
     except asyncio.CancelledError:
         cancelled = True
@@ -95,6 +100,7 @@ async def harvest_wait(
     cancel_timeout: float = _CANCEL_TIMEOUT,
     cancel_finish: bool = False,
     trustee: Any = None,
+    return_when: str = asyncio.FIRST_EXCEPTION,
 ) -> None:
     """Wait for tasks to finish or raise an exception.
 
@@ -117,7 +123,7 @@ async def harvest_wait(
         done, pending = await asyncio.wait(
             tasks,
             timeout=timeout,
-            return_when=asyncio.FIRST_EXCEPTION,
+            return_when=return_when,
         )
 
         # Determine whether asyncio.wait timed out.
diff --git a/shellous/runner.py b/shellous/runner.py
index 1a7621b..b1d7039 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1084,12 +1084,21 @@ class PipeRunner:
         "Wait for pipeline to finish."
         assert self._results is None
 
+        return_when = asyncio.FIRST_EXCEPTION
+
         if kill:
             LOGGER.debug("PipeRunner.wait killing pipe %r", self)
             for task in self._tasks:
                 task.cancel()
-
-        cancelled, self._results = await harvest_results(*self._tasks, trustee=self)
+            # Every task is already cancelled. Cancelling a task for a second
+            # time would kill its process without waiting for `cancel_timeout`.
+            return_when = asyncio.ALL_COMPLETED
+
+        cancelled, self._results = await harvest_results(
+            *self._tasks,
+            trustee=self,
+            return_when=return_when,
+        )
         if cancelled:
             self._cancelled = True
         self._tasks.clear()  # clear all tasks when done
-- 
2.43.0


From c446acffedb5c00cabf1c7097ed4b9381ccd6d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 07/40] fix: close all descriptors when redirection setup fails

---
 shellous/runner.py | 64 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 15 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index b1d7039..8bc8a50 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -7,7 +7,17 @@ import sys
 from logging import Logger
 from pathlib import Path
 from types import TracebackType
-from typing import Any, AsyncIterator, Coroutine, Optional, TextIO, TypeVar, Union, cast
+from typing import (
+    Any,
+    AsyncIterator,
+    Coroutine,
+    Iterable,
+    Optional,
+    TextIO,
+    TypeVar,
+    Union,
+    cast,
+)
 
 import shellous
 import shellous.redirect as redir
@@ -121,7 +131,10 @@ class _RunOptions:
         except Exception as ex:
             if LOG_DETAIL:
                 LOGGER.debug("_RunOptions.enter %r ex=%r", self.command.name, ex)
-            _cleanup(self.command)
+            _cleanup(self.command, self.open_fds)
+            self.open_fds.clear()
+            for subcmd in self.subcmds:
+                _cleanup(subcmd)
             raise
 
         assert _cmd is self.command, "self.command should remain unchanged"
@@ -162,6 +175,9 @@ class _RunOptions:
                 continue
 
             (read_fd, write_fd) = os.pipe()
+            # The parent's end is closed after process launch.
+            self.open_fds.append(write_fd if _is_writable(arg) else read_fd)
+
             if _is_writable(arg):
                 new_args.append(f"/dev/fd/{write_fd}")
                 new_fds.append(write_fd)
@@ -173,11 +189,9 @@ class _RunOptions:
 
             self.subcmds.append(subcmd)
 
-        # We need to include `new_fds` in our `pass_fds` list. We also need
-        # to close them after process launch.
+        # We need to include `new_fds` in our `pass_fds` list.
         self.kwd_args["pass_fds"] = new_fds
         self.kwd_args["close_fds"] = True
-        self.open_fds.extend(new_fds)
 
         if BSD_DERIVED:
             verify_dev_fd(new_fds[0])
@@ -1302,22 +1316,42 @@ def _is_multiple_capture(cmd: "shellous.Command[Any]"):
     return output == Redirect.CAPTURE and error == Redirect.CAPTURE
 
 
-def _cleanup(command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]"):
-    "Close remaining file descriptors that need to be closed."
+def _cleanup(
+    command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]",
+    other_fds: Iterable[Union[int, SupportsClose]] = (),
+):
+    """Close remaining file descriptors that need to be closed.
+
+    `other_fds` may also include some of the command's file descriptors; each
+    one is closed only once.
+    """
+
+    def _add(fdesc: Any):
+        if fdesc not in open_fds:
+            open_fds.append(fdesc)
 
     def _add_close(close: bool, fdesc: Any):
         if close:
             if isinstance(fdesc, (int, io.IOBase)):
-                open_fds.append(fdesc)
+                _add(fdesc)
 
     open_fds: list[Any] = []
-
-    _add_close(command.options.input_close, command.options.input)
-    _add_close(command.options.output_close, command.options.output)
-    _add_close(command.options.error_close, command.options.error)
-
-    if command.options.pass_fds_close:
-        open_fds.extend(command.options.pass_fds)
+    for fdesc in other_fds:
+        _add(fdesc)
+
+    if isinstance(command, shellous.Pipeline):
+        commands = command.commands
+    else:
+        commands = (command,)
+
+    for cmd in commands:
+        _add_close(cmd.options.input_close, cmd.options.input)
+        _add_close(cmd.options.output_close, cmd.options.output)
+        _add_close(cmd.options.error_close, cmd.options.error)
+
+        if cmd.options.pass_fds_close:
+            for fdesc in cmd.options.pass_fds:
+                _add(fdesc)
 
     close_fds(open_fds)
 
-- 
2.43.0


From bc248a78c38ed3c741b3a197f62b1331a6ce2e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:36 +0000
Subject: [PATCH 08/40] fix: report the actual error when a pipeline cannot
 create its pipes

---
 shellous/runner.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 8bc8a50..aa4e34a 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1126,7 +1126,8 @@ class PipeRunner:
             LOGGER.warning("PipeRunner enter %r ex=%r", self, ex)
             if _is_cancelled(ex):
                 self._cancelled = True
-            await self._wait(kill=True)
+            if self._tasks:
+                await self._wait(kill=True)
             raise
 
     @log_method(LOG_DETAIL)
@@ -1185,7 +1186,8 @@ class PipeRunner:
 
         except BaseException:  # pylint: disable=broad-except
             # Clean up after any exception *including* CancelledError.
-            close_fds(open_fds)
+            if not self._tasks:
+                _cleanup(self._pipe, open_fds)
             raise
 
     def _setup_pipeline(self, open_fds: list[int]):
-- 
2.43.0


From 47f76acbd55705a1f0c59c0f05f9ed1e08e7b3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 09/40] fix: close the pty when the launch fails or is
 cancelled

---
 shellous/pty_util.py | 24 ++++++++++++++----------
 shellous/runner.py   | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 12 deletions(-)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index b3413d0..af6d76d 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -82,16 +82,20 @@ def open_pty(pty_func: PtyAdapterOrBool) -> PtyFds:
     "Open pseudo-terminal (pty) descriptors. Returns (PtyFds, child_fd)."
     parent_fd, child_fd = pty.openpty()
 
-    # If pty_func is a callable, call it here with `child_fd` as argument. This
-    # gives the client an opportunity to configure the tty.
-    if callable(pty_func):
-        pty_func(child_fd)
-
-    return PtyFds(
-        parent_fd,
-        ChildFd(child_fd),
-        _get_eof(child_fd),
-    )
+    try:
+        # If pty_func is a callable, call it here with `child_fd` as argument. This
+        # gives the client an opportunity to configure the tty.
+        if callable(pty_func):
+            pty_func(child_fd)
+
+        return PtyFds(
+            parent_fd,
+            ChildFd(child_fd),
+            _get_eof(child_fd),
+        )
+    except BaseException:
+        close_fds([parent_fd, child_fd])
+        raise
 
 
 def set_ctty(ttypath: str) -> None:
diff --git a/shellous/runner.py b/shellous/runner.py
index aa4e34a..e4bea72 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -713,7 +713,12 @@ class Runner:
             if _is_cancelled(ex):
                 self._set_cancelled()
             if self._proc:
-                await self._kill()
+                try:
+                    await self._kill()
+                finally:
+                    await self._close()
+            elif self._options.pty_fds:
+                self._options.pty_fds.close()
             raise
 
         # Make final streams available. These may be different from `self.proc`
@@ -738,7 +743,8 @@ class Runner:
 
         # Second half of pty setup.
         if opts.pty_fds:
-            opts.pty_fds = await opts.pty_fds.open_streams()
+            # Always completes, so we can close the streams if cancelled.
+            await uninterrupted(self._open_pty_streams(opts))
 
         # Check for task cancellation and yield right before exec'ing. If the
         # current task is already cancelled, this will raise a CancelledError,
@@ -753,6 +759,12 @@ class Runner:
         for cmd in opts.subcmds:
             self.add_task(cmd.coro(), "procsub")
 
+    @log_method(LOG_DETAIL)
+    async def _open_pty_streams(self, opts: _RunOptions):
+        "Open the pty streams and assign to `opts.pty_fds`."
+        assert opts.pty_fds is not None
+        opts.pty_fds = await opts.pty_fds.open_streams()
+
     @log_method(LOG_DETAIL)
     async def _subprocess_exec(self, opts: _RunOptions):
         "Start the subprocess and assign to `self.proc`."
-- 
2.43.0


From 655c5743dea18477d1f4a564e87d0ea20b1ed2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:53 +0000
Subject: [PATCH 10/40] fix: wait for a killed process to exit even if
 cancelled again

---
 shellous/runner.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index e4bea72..1a94d38 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -635,7 +635,10 @@ class Runner:
 
         try:
             self._signal(None)
-            await harvest(self._waiter(), timeout=_KILL_TIMEOUT, trustee=self)
+            # Always wait for the process to exit, even if cancelled again.
+            await uninterrupted(
+                harvest(self._waiter(), timeout=_KILL_TIMEOUT, trustee=self)
+            )
         except asyncio.TimeoutError as ex:
             # Manually check if the process is still running.
             if poll_wait_pid(self._proc):
-- 
2.43.0


From def13826e3b9479395d21d8e2f8137c3f246c9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 11/40] fix: unwritten input must not replace the reason for
 stopping a command

---
 shellous/runner.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 1a94d38..443832b 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -719,7 +719,7 @@ class Runner:
                 try:
                     await self._kill()
                 finally:
-                    await self._close()
+                    await self._close(True)
             elif self._options.pty_fds:
                 self._options.pty_fds.close()
             raise
@@ -919,6 +919,7 @@ class Runner:
         "Finish the run. Return True only if `exc_value` should be suppressed."
         assert self._proc
 
+        stopped = True
         try:
             if exc_value is not None:
                 if _is_cancelled(exc_value):
@@ -927,14 +928,19 @@ class Runner:
                 return self._cancelled
 
             await self._wait()
+            stopped = self._cancelled
             return False
 
         finally:
-            await self._close()
+            await self._close(stopped)
 
     @log_method(LOG_DETAIL)
-    async def _close(self):
-        "Make sure that our resources are properly closed."
+    async def _close(self, stopped: bool):
+        """Make sure that our resources are properly closed.
+
+        If `stopped` is True, the run did not end by itself and unwritten input
+        is not an error.
+        """
         assert self._proc is not None
 
         if self._options.pty_fds:
@@ -964,6 +970,11 @@ class Runner:
         except asyncio.TimeoutError:
             LOGGER.critical("Runner._close %r timeout stdin=%r", self, self._proc.stdin)
 
+        except (BrokenPipeError, ConnectionResetError):
+            # Don't replace the original reason for stopping.
+            if not stopped:
+                raise
+
     def _audit_callback(
         self,
         phase: str,
-- 
2.43.0


From 80270f733282c11b8c082fdde4b29b32b68cbd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 12/40] fix: do not swallow a cancellation that arrives while
 handling an exception

---
 shellous/runner.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 443832b..56de42f 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -59,6 +59,19 @@ def _is_cancelled(ex: BaseException):
     return isinstance(ex, asyncio.CancelledError)
 
 
+def _cancelled_late(
+    run: "Union[Runner, PipeRunner]",
+    exc_value: Optional[BaseException],
+) -> bool:
+    "Return true if cancelled while already exiting with another exception."
+    return (
+        exc_value is not None
+        and not _is_cancelled(exc_value)
+        and run._cancelled
+        and not run.options._catch_cancelled_error
+    )
+
+
 def _is_writable(cmd: "Union[shellous.Command[Any], shellous.Pipeline[Any]]"):
     "Return true if command/pipeline has `_writable` set."
     if isinstance(cmd, shellous.Pipeline):
@@ -912,6 +925,8 @@ class Runner:
             and not self.command.options._catch_cancelled_error
         ):
             raise asyncio.TimeoutError()
+        if _cancelled_late(self, exc_value):
+            raise asyncio.CancelledError()
         return suppress
 
     @log_method(LOG_DETAIL)
@@ -925,7 +940,7 @@ class Runner:
                 if _is_cancelled(exc_value):
                     self._set_cancelled()
                 await self._kill()
-                return self._cancelled
+                return _is_cancelled(exc_value)
 
             await self._wait()
             stopped = self._cancelled
@@ -1170,6 +1185,8 @@ class PipeRunner:
         except asyncio.CancelledError:
             LOGGER.warning("PipeRunner cancelled inside _finish %r", self)
             self._cancelled = True
+        if _cancelled_late(self, exc_value):
+            raise asyncio.CancelledError()
         return suppress
 
     @log_method(LOG_DETAIL)
@@ -1180,7 +1197,7 @@ class PipeRunner:
             if _is_cancelled(exc_value):
                 self._cancelled = True
             await self._wait(kill=True)
-            return self._cancelled
+            return _is_cancelled(exc_value)
 
         await self._wait()
         return False
-- 
2.43.0


From 6715739e04fd1960651ee77e446c782006e14421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 13/40] fix: stop the timeout timer when the command is being
 stopped

---
 shellous/runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 56de42f..d7290c0 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -601,6 +601,9 @@ class Runner:
         cancel_timeout = self.command.options.cancel_timeout
         cancel_signal = self.command.options.cancel_signal
 
+        # The timeout must not cut the `cancel_timeout` short.
+        self._stop_timer()
+
         try:
             # If not already done, send cancel signal.
             if self._proc.returncode is None:
-- 
2.43.0


From d190b1882f875589480453420d36afe72f671d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 14/40] fix: undo the cancel request of an expired timeout

---
 shellous/runner.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index d7290c0..a2f2fa5 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -429,6 +429,7 @@ class Runner:
     _proc: Optional["asyncio.subprocess.Process"] = None
     _cancelled: bool = False
     _timer: Optional[asyncio.TimerHandle] = None
+    _timer_task: Optional[asyncio.Task[Any]] = None
     _timed_out: bool = False
     _last_signal: Optional[int] = None
 
@@ -832,8 +833,15 @@ class Runner:
         "Set a flag when the timer expires and cancel the main task."
         self._timed_out = True
         self._timer = None
+        self._timer_task = main_task
         main_task.cancel()
 
+    def _uncancel(self):
+        "Undo the timer's cancel request, which does not leave this class."
+        task, self._timer_task = self._timer_task, None
+        if task is not None and sys.version_info >= (3, 11):
+            task.uncancel()
+
     def _stop_timer(self):
         if self._timer:
             self._timer.cancel()
@@ -920,6 +928,7 @@ class Runner:
             self._set_cancelled()
         finally:
             self._stop_timer()  # failsafe just in case
+            self._uncancel()
             self._audit_callback("stop")
         # If `timeout` expired, raise TimeoutError rather than CancelledError.
         if (
-- 
2.43.0


From 44c7f92b72879922b07a04e62846b64d06d3b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 15/40] fix: iteration must not end normally when cancelled or
 a launch fails

---
 shellous/command.py  | 2 ++
 shellous/pipeline.py | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/shellous/command.py b/shellous/command.py
index 2b896a2..079727d 100644
--- a/shellous/command.py
+++ b/shellous/command.py
@@ -734,6 +734,8 @@ class Command(Generic[_RT]):
         async with Runner(self) as run:
             async for line in run:
                 yield line
+        if run.cancelled:
+            run.result()  # raises CancelledError
 
     def __call__(self, *args: Any) -> "Command[_RT]":
         "Apply more arguments to the end of the command."
diff --git a/shellous/pipeline.py b/shellous/pipeline.py
index 7f5b608..287ae3e 100644
--- a/shellous/pipeline.py
+++ b/shellous/pipeline.py
@@ -240,3 +240,6 @@ class Pipeline(Generic[_RT]):
         async with PipeRunner(self, capturing=True) as run:
             async for line in run:
                 yield line
+        # Raise an error if a command failed to launch, or CancelledError.
+        if run.result(check=False).cancelled:
+            run.result()
-- 
2.43.0


From d4740fe635e8c9f6db3365a9f8d4d79174ea6906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 16/40] fix: equal environments must have equal hashes

---
 shellous/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/util.py b/shellous/util.py
index 9b84d51..52929ca 100644
--- a/shellous/util.py
+++ b/shellous/util.py
@@ -217,7 +217,7 @@ class EnvironmentDict(abc.Mapping[str, str]):
         return iter(self._data)
 
     def __hash__(self) -> int:
-        return hash(tuple((key, value) for key, value in self._data.items()))
+        return hash(frozenset(self._data.items()))
 
     def __eq__(self, rhs: object) -> bool:
         if isinstance(rhs, dict):
-- 
2.43.0


From c73ffa27ef1a3f390dca7f7419ff9add80dc0b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 17/40] fix: a prompt block must not end normally when
 cancelled

---
 shellous/command.py  | 2 ++
 shellous/pipeline.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/shellous/command.py b/shellous/command.py
index 079727d..8a2baf9 100644
--- a/shellous/command.py
+++ b/shellous/command.py
@@ -704,6 +704,8 @@ class Command(Generic[_RT]):
                 )
                 yield cli
                 cli.close()
+            if run.cancelled:
+                run.result()  # raises CancelledError
         finally:
             if cli is not None:
                 cli._finish_()  # pyright: ignore[reportPrivateUsage]
diff --git a/shellous/pipeline.py b/shellous/pipeline.py
index 287ae3e..797def5 100644
--- a/shellous/pipeline.py
+++ b/shellous/pipeline.py
@@ -137,6 +137,8 @@ class Pipeline(Generic[_RT]):
                 )
                 yield cli
                 cli.close()
+            if run.result(check=False).cancelled:
+                run.result()  # raises CancelledError
         finally:
             if cli is not None:
                 cli._finish_()  # pyright: ignore[reportPrivateUsage]
-- 
2.43.0


From fa04cc360288cc34c4c67355a89607d644fb3d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:13 +0000
Subject: [PATCH 18/40] fix: collect cancelled tasks even if cancelled
 repeatedly

---
 shellous/harvest.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index 45c460b..a19d3c7 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -174,20 +174,21 @@ async def _cancel_wait(
     Return True if cancelled while waiting; the caller must not ignore this
     unless it is already raising a CancelledError.
     """
-    try:
-        if not cancel_finish:
-            # Cancel all tasks.
-            for task in tasks:
-                task.cancel()
-
-        await _cancel_waiter(tasks, trustee, cancel_timeout)
-        return False
+    if not cancel_finish:
+        # Cancel all tasks.
+        for task in tasks:
+            task.cancel()
 
-    except asyncio.CancelledError:
-        # Retry once if _cancel_wait is itself cancelled.
-        LOGGER.warning("Harvest._cancel_wait cancelled itself trustee=%r", trustee)
-        await _cancel_waiter(tasks, trustee, cancel_timeout)
-        return True
+    cancelled = False
+    while True:
+        try:
+            await _cancel_waiter(tasks, trustee, cancel_timeout)
+            return cancelled
+        except asyncio.CancelledError:
+            # Retry if _cancel_wait is itself cancelled; the tasks must be done
+            # before we return.
+            LOGGER.warning("Harvest._cancel_wait cancelled itself trustee=%r", trustee)
+            cancelled = True
 
 
 async def _cancel_waiter(
-- 
2.43.0


From d01f51a2c9d9445d9f1769734c35d4ad745c6836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:20 +0000
Subject: [PATCH 19/40] fix: remember a cancellation while a killed process is
 reaped manually

---
 shellous/runner.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index a2f2fa5..77e9d7d 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -650,12 +650,17 @@ class Runner:
         if self._proc.returncode is not None:
             return
 
+        self._signal(None)
+        # Always wait for the process to exit, even if cancelled again.
+        await uninterrupted(self._wait_killed())
+
+    @log_method(LOG_DETAIL)
+    async def _wait_killed(self):
+        "Wait for killed process to exit, within a time limit."
+        assert self._proc
+
         try:
-            self._signal(None)
-            # Always wait for the process to exit, even if cancelled again.
-            await uninterrupted(
-                harvest(self._waiter(), timeout=_KILL_TIMEOUT, trustee=self)
-            )
+            await harvest(self._waiter(), timeout=_KILL_TIMEOUT, trustee=self)
         except asyncio.TimeoutError as ex:
             # Manually check if the process is still running.
             if poll_wait_pid(self._proc):
-- 
2.43.0


From a5941f908928a048546ba08a3d313a3e90fd0b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 20/40] fix: raise the failure of a task rather than that of a
 task it cancelled

---
 shellous/harvest.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index a19d3c7..e25f7a2 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -34,7 +34,7 @@ async def harvest(
     tasks are not cancelled, but allowed to finish.
     """
     tasks = [asyncio.ensure_future(item) for item in aws]
-    await harvest_wait(
+    done = await harvest_wait(
         tasks,
         timeout=timeout,
         cancel_timeout=cancel_timeout,
@@ -42,7 +42,8 @@ async def harvest(
         trustee=trustee,
     )
     _consume_exceptions(tasks)
-    for task in tasks:
+    # A task that failed comes before tasks that failed while being cancelled.
+    for task in sorted(tasks, key=lambda task: task not in done):
         if not task.cancelled():
             task.result()
 
@@ -101,9 +102,11 @@ async def harvest_wait(
     cancel_finish: bool = False,
     trustee: Any = None,
     return_when: str = asyncio.FIRST_EXCEPTION,
-) -> None:
+) -> set[asyncio.Task[Any]]:
     """Wait for tasks to finish or raise an exception.
 
+    Return the set of tasks that finished without being cancelled by harvest.
+
     After the harvest returns, all of the tasks are guaranteed to be done.
 
     If there are pending tasks, they are cancelled and collected. Their
@@ -162,6 +165,8 @@ async def harvest_wait(
         _consume_exceptions(tasks)
         raise asyncio.TimeoutError()
 
+    return done
+
 
 async def _cancel_wait(
     tasks: Iterable[asyncio.Task[Any]],
-- 
2.43.0


From 2d777c78aac91f8b61dae19a26da46d58f6c9c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:04 +0000
Subject: [PATCH 21/40] fix: a timeout must expire even if a task has failed
 when all are to complete

---
 shellous/harvest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index e25f7a2..e00eb37 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -135,7 +135,7 @@ async def harvest_wait(
             time_expired = True
         elif pending:
             # No tasks in `done` finished with an exception.
-            time_expired = not any(
+            time_expired = return_when == asyncio.ALL_COMPLETED or not any(
                 task.exception() for task in done if not task.cancelled()
             )
 
-- 
2.43.0


From e66861ac23a8447edfe4b39cb5f9e9671203933e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 22/40] fix: Prompt.send() no longer hides a broken connection
 behind its own reader's cancellation

---
 shellous/prompt.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index 21e45af..d38e264 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -503,9 +503,12 @@ class Prompt:
             await stream.drain()
 
         finally:
-            if not read_task.done():
-                read_task.cancel()
-                await read_task
+            # Stop reading, without hiding an exception raised by drain().
+            read_task.cancel()
+            (result,) = await asyncio.gather(read_task, return_exceptions=True)
+
+        if isinstance(result, Exception):
+            raise result
 
     async def _read_some(
         self,
-- 
2.43.0


From bf0e66b32df7191f43a15b932d44571f846789a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:19 +0000
Subject: [PATCH 23/40] fix: Prompt.expect() keeps the matched text when it is
 cancelled after finding it

---
 shellous/prompt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index d38e264..739284b 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -323,6 +323,9 @@ class Prompt:
             timeout=timeout or self._default_timeout,
         )
         if cancelled:
+            if isinstance(result, tuple):
+                # We found the prompt, but we can't return it; put it back.
+                self._pending = result[0] + result[1][0] + self._pending
             raise asyncio.CancelledError()
         if isinstance(result, Exception):
             raise result
-- 
2.43.0


From 7cd3cc1933307e1376d7f931d0a20f946390ec24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 24/40] fix: a prompt method's timeout=0 overrides the default
 timeout

---
 shellous/prompt.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/shellous/prompt.py b/shellous/prompt.py
index 739284b..543e542 100644
--- a/shellous/prompt.py
+++ b/shellous/prompt.py
@@ -197,7 +197,7 @@ class Prompt:
         # Drain our write to stdin.
         cancelled, ex = await harvest_results(
             self._drain(stdin),
-            timeout=timeout or self._default_timeout,
+            timeout=self._timeout(timeout),
         )
         if cancelled:
             raise asyncio.CancelledError()
@@ -320,7 +320,7 @@ class Prompt:
 
         cancelled, (result,) = await harvest_results(
             self._read_to_pattern(prompt),
-            timeout=timeout or self._default_timeout,
+            timeout=self._timeout(timeout),
         )
         if cancelled:
             if isinstance(result, tuple):
@@ -344,7 +344,7 @@ class Prompt:
         if not self._at_eof:
             cancelled, (result,) = await harvest_results(
                 self._read_some(tag="@read_all"),
-                timeout=timeout or self._default_timeout,
+                timeout=self._timeout(timeout),
             )
             if cancelled:
                 raise asyncio.CancelledError()
@@ -543,6 +543,10 @@ class Prompt:
             data = self._decoder.decode(chunk, final=self._at_eof)
             self._pending += data
 
+    def _timeout(self, timeout: Optional[float]) -> Optional[float]:
+        "Return the timeout to use, given a method's `timeout` argument."
+        return self._default_timeout if timeout is None else timeout
+
     async def _wait_no_echo(self):
         "Wait for terminal echo mode to be disabled."
         if LOG_PROMPT:
-- 
2.43.0


From c0c5881b52bd7dcc050847518f10b6196bdf0f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:08 +0000
Subject: [PATCH 25/40] fix: a command's timeout no longer hides another
 cancellation of the task

---
 shellous/runner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 77e9d7d..6cf624c 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -430,6 +430,7 @@ class Runner:
     _cancelled: bool = False
     _timer: Optional[asyncio.TimerHandle] = None
     _timer_task: Optional[asyncio.Task[Any]] = None
+    _cancelling: int = 0
     _timed_out: bool = False
     _last_signal: Optional[int] = None
 
@@ -828,6 +829,8 @@ class Runner:
             loop = asyncio.get_running_loop()
             task = asyncio.current_task()
             assert task is not None
+            if sys.version_info >= (3, 11):
+                self._cancelling = task.cancelling()
             self._timer = loop.call_later(
                 timeout,
                 self._set_timer_expired,
@@ -845,7 +848,9 @@ class Runner:
         "Undo the timer's cancel request, which does not leave this class."
         task, self._timer_task = self._timer_task, None
         if task is not None and sys.version_info >= (3, 11):
-            task.uncancel()
+            if task.uncancel() > self._cancelling:
+                # Somebody else has also cancelled the task.
+                self._timed_out = False
 
     def _stop_timer(self):
         if self._timer:
-- 
2.43.0


From a88e8679d8d5641d98313ba86c67e9040baef121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:33 +0000
Subject: [PATCH 26/40] fix: the timeout of a command in a pipeline raises
 TimeoutError

---
 shellous/runner.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 6cf624c..1413bd1 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1055,6 +1055,7 @@ class Runner:
         command: "shellous.Command[Any]",
         *,
         _run_future: Optional[asyncio.Future["Runner"]] = None,
+        _raise_timeout: bool = False,
     ) -> Union[str, Result]:
         "Run a command. This is the main entry point for Runner."
         if not _run_future and _is_multiple_capture(command):
@@ -1067,6 +1068,9 @@ class Runner:
                 # Return streams to caller in another task.
                 _run_future.set_result(run)
 
+        if _raise_timeout and run._cancelled and run._timed_out:
+            raise asyncio.TimeoutError()
+
         result = run.result()
         if command.options._return_result:
             return result
@@ -1239,8 +1243,8 @@ class PipeRunner:
             if self._capturing:
                 stdin, stdout, stderr = await self._setup_capturing(cmds, open_fds)
             else:
-                for cmd in cmds:
-                    self.add_task(cmd.coro())
+                for i in range(len(cmds)):
+                    self.add_task(self._member_coro(cmds, i))
                 open_fds.clear()  # now owned by the tasks
 
             self.stdin = stdin
@@ -1276,6 +1280,23 @@ class PipeRunner:
 
         return cmds
 
+    def _member_coro(
+        self,
+        cmds: "list[shellous.Command[Any]]",
+        index: int,
+        run_future: Optional[asyncio.Future[Runner]] = None,
+    ):
+        "Return coroutine object that runs one command of the pipeline."
+        # `_setup_pipeline` sets `_catch_cancelled_error` in each command, so
+        # that a cancelled command has a `Result`. A command that exceeds its
+        # own timeout must still fail the pipeline.
+        options = self._pipe.commands[index].options
+        return Runner.run_command(
+            cmds[index],
+            _run_future=run_future,
+            _raise_timeout=not options._catch_cancelled_error,
+        )
+
     @log_method(LOG_DETAIL)
     async def _setup_capturing(
         self,
@@ -1287,15 +1308,16 @@ class PipeRunner:
         first_fut = loop.create_future()
         last_fut = loop.create_future()
 
-        first_coro = cmds[0].coro(_run_future=first_fut)
-        last_coro = cmds[-1].coro(_run_future=last_fut)
-        middle_coros = [cmd.coro() for cmd in cmds[1:-1]]
+        last = len(cmds) - 1
+        first_coro = self._member_coro(cmds, 0, first_fut)
+        last_coro = self._member_coro(cmds, last, last_fut)
+        middle_coros = [self._member_coro(cmds, i) for i in range(1, last)]
 
         # Tag each task name with the index of the command in the pipe.
         first_task = self.add_task(first_coro, "0")
         for i, coro in enumerate(middle_coros):
             self.add_task(coro, str(i + 1))
-        last_task = self.add_task(last_coro, str(len(cmds) - 1))
+        last_task = self.add_task(last_coro, str(last))
 
         # If a task ends without signaling that it's ready (e.g. because the
         # launch failed), stop waiting for it.
-- 
2.43.0


From 8b0e621342671154495c937312dea10c0dccadfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:21 +0000
Subject: [PATCH 27/40] fix: a pty command that leaves input unread hangs or
 leaks its terminal

Once no process has the terminal open, writing to it fails with EAGAIN while
polling it never blocks. The event loop would spin, a large input never
finished and the file descriptor of the terminal was never closed.
---
 shellous/pty_util.py | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/shellous/pty_util.py b/shellous/pty_util.py
index af6d76d..cb21679 100644
--- a/shellous/pty_util.py
+++ b/shellous/pty_util.py
@@ -73,6 +73,10 @@ class PtyFds(NamedTuple):
             LOGGER.debug("PtyFds.close")
         self.child_fd.close()
         if self.writer:
+            # The process is gone, so nobody will read the input that is still
+            # buffered. Drop it; otherwise the transport never closes.
+            if self.writer.transport.get_write_buffer_size() > 0:
+                self.writer.transport.abort()
             self.writer.close()
         else:
             close_fds([self.parent_fd])
@@ -112,6 +116,7 @@ class PtyStreamReaderProtocol(asyncio.StreamReaderProtocol):
 
     pty__child_fd: Optional[ChildFd] = None
     pty__timer: Optional[asyncio.TimerHandle] = None  # Issue #378
+    pty__writer: Optional[asyncio.WriteTransport] = None
 
     def connection_lost(self, exc: Optional[Exception]) -> None:
         "Intercept EIO error and treat it as EOF."
@@ -121,6 +126,11 @@ class PtyStreamReaderProtocol(asyncio.StreamReaderProtocol):
             self.pty__timer.cancel()
         if isinstance(exc, OSError) and exc.errno == errno.EIO:
             exc = None
+            # No process has the terminal open. It's never writable again, so
+            # don't wait for it. (This doesn't close the terminal itself.)
+            if self.pty__writer is not None and not self.pty__writer.is_closing():
+                self.pty__writer.abort()
+        self.pty__writer = None
         super().connection_lost(exc)
 
     if BSD_DERIVED:
@@ -155,6 +165,12 @@ class PtyStreamReaderProtocol(asyncio.StreamReaderProtocol):
 async def _open_pty_streams(parent_fd: int, child_fd: ChildFd):
     "Open reader, writer streams for pty file descriptor."
     loop = asyncio.get_running_loop()
+
+    # The writer has its own file descriptor, so it can be aborted without
+    # closing the terminal. Closing the terminal sends a SIGHUP to the process.
+    writer_file = os.fdopen(os.dup(parent_fd), "wb", 0)
+    parent = ChildFd(parent_fd)  # closed exactly once
+
     reader = asyncio.StreamReader(loop=loop)
     reader_protocol = PtyStreamReaderProtocol(reader, loop=loop)
 
@@ -169,16 +185,19 @@ async def _open_pty_streams(parent_fd: int, child_fd: ChildFd):
 
     writer_transport, writer_protocol = await loop.connect_write_pipe(
         asyncio.streams.FlowControlMixin,
-        os.fdopen(parent_fd, "wb", 0, closefd=True),
+        writer_file,
     )
+    reader_protocol.pty__writer = writer_transport
     writer = asyncio.StreamWriter(writer_transport, writer_protocol, reader, loop)
 
-    # Patch writer_transport.close so it also closes the reader_transport.
+    # Patch writer_transport.close so it also closes the reader_transport and
+    # the terminal.
     def _close():
         if LOG_DETAIL:
             LOGGER.debug("writer_transport.close()")
         _orig_close()
         reader_transport.close()
+        parent.close()
 
     writer_transport.close, _orig_close = _close, writer_transport.close
 
-- 
2.43.0


From 2d0e544912e469129fbc0161c82e4b5925b8529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:21 +0000
Subject: [PATCH 28/40] fix: stderr of a pty command follows stdout when stdout
 is redirected

With stdout redirected, a pty command's stderr (STDOUT by default) went to the
terminal where nobody read it: it was lost, or blocked the process. With
stdout(DEVNULL).stderr(STDOUT) the command failed with an AssertionError.
---
 shellous/runner.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 1413bd1..90f3c03 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -222,7 +222,8 @@ class _RunOptions:
         )
 
         # Handle "stderr only" case when stdout -> DEVNULL, stderr -> STDOUT.
-        if options.output == Redirect.DEVNULL and options.error == Redirect.STDOUT:
+        error = Redirect.from_default(options.error, 2, options.pty)
+        if options.output == Redirect.DEVNULL and error == Redirect.STDOUT:
             self.is_stderr_only = True
 
         stdout = self._setup_output(
@@ -233,7 +234,7 @@ class _RunOptions:
         )
 
         stderr = self._setup_output(
-            Redirect.from_default(options.error, 2, options.pty),
+            error,
             options.error_append,
             options.error_close,
             sys.stderr,
@@ -398,7 +399,10 @@ class _RunOptions:
         if stdout == asyncio.subprocess.PIPE:
             stdout = child_fd
 
-        if stderr == asyncio.subprocess.STDOUT:
+        # If stdout is not the pty, STDOUT keeps its usual meaning.
+        if self.is_stderr_only or (
+            stderr == asyncio.subprocess.STDOUT and stdout == child_fd
+        ):
             stderr = child_fd
 
         ttyname = os.ttyname(child_fd)
-- 
2.43.0


From 293aeadf3f923953ea575fbe6e6a80fac4a1588d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:49 +0000
Subject: [PATCH 29/40] fix: EPollStrategy leaks descriptors when registration
 or start-up fails

---
 shellous/watcher.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/shellous/watcher.py b/shellous/watcher.py
index 36f3cf6..49e0042 100644
--- a/shellous/watcher.py
+++ b/shellous/watcher.py
@@ -267,14 +267,21 @@ class EPollStrategy(ChildStrategy):
         self._pidfds = {}  # pidfd -> (pid, callback, args)
         self._epoll = select.epoll()
         self._selfpipe = os.pipe()
-        self._epoll.register(self._selfpipe[0], select.EPOLLIN)
         self._tasks = _TaskSet()
         self._thread = threading.Thread(
             target=self._run,
             name="EPollStrategy.run",
             daemon=True,
         )
-        self._thread.start()
+
+        try:
+            self._epoll.register(self._selfpipe[0], select.EPOLLIN)
+            self._thread.start()
+        except Exception:
+            # There is no thread to clean up these resources.
+            self._epoll.close()
+            close_fds(list(self._selfpipe))
+            raise
 
     def close(self) -> None:
         "Tell the epoll thread to exit."
@@ -356,7 +363,13 @@ class EPollStrategy(ChildStrategy):
         pidfd = os.pidfd_open(pid, 0)
         self._pidfds[pidfd] = (pid, callback, args)  # ATOMIC: self._pidfds[]
 
-        self._epoll.register(pidfd, select.EPOLLIN)
+        try:
+            self._epoll.register(pidfd, select.EPOLLIN)
+        except Exception:
+            # The thread will never see this pidfd; don't leak it.
+            self._pidfds.pop(pidfd)  # ATOMIC: self._pidfds.pop()
+            os.close(pidfd)
+            raise
         LOGGER.debug("_add_pidfd registered pidfd=%r pid=%r", pidfd, pid)
 
     def _remove_pidfd(self, pidfd: int):
-- 
2.43.0


From 3efbb81029f4353eba8c5e44e8ef6b78e0f20e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:03 +0000
Subject: [PATCH 30/40] fix: ThreadStrategy fails when the pid of a reaped
 process is reused

---
 shellous/watcher.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/shellous/watcher.py b/shellous/watcher.py
index 49e0042..820f175 100644
--- a/shellous/watcher.py
+++ b/shellous/watcher.py
@@ -383,16 +383,16 @@ class ThreadStrategy(ChildStrategy):
 
     # pylint: disable=super-init-not-called
 
-    _pids: dict[int, threading.Thread]
+    _threads: set[threading.Thread]
 
     def __init__(self):
         "Initialize strategy."
-        self._pids = {}  # pid -> Thread
+        self._threads = set()
 
     def close(self) -> None:
         """There is no way to force-close the threads. Log a message if there
         are still any live threads."""
-        threads = list(self._pids.values())
+        threads = list(self._threads)  # ATOMIC: list(self._threads)
         live_threads = [thread.name for thread in threads if thread.is_alive()]
         if live_threads:
             LOGGER.warning("ThreadStrategy: Child processes exist: %r", live_threads)
@@ -404,15 +404,20 @@ class ThreadStrategy(ChildStrategy):
         args: _CallbackArgsType,
     ) -> None:
         "Start a thread to watch the PID."
-        assert pid not in self._pids
+        # Threads are not tracked by pid. As soon as `_reap_pid` has waited for a
+        # process, its pid may belong to a new process that we're asked to watch.
         thread = threading.Thread(
             target=self._reap_pid,
             args=(pid, callback, args),
             name=f"ThreadStrategy.reap_pid-{pid}",
             daemon=True,
         )
-        self._pids[pid] = thread
-        thread.start()
+        self._threads.add(thread)  # ATOMIC: self._threads.add()
+        try:
+            thread.start()
+        except Exception:
+            self._threads.discard(thread)  # ATOMIC: self._threads.discard()
+            raise
 
     @log_thread(LOG_DETAIL)
     def _reap_pid(
@@ -428,7 +433,7 @@ class ThreadStrategy(ChildStrategy):
         else:
             LOGGER.critical("_reap_pid: process still running pid=%r", pid)
 
-        self._pids.pop(pid)
+        self._threads.discard(threading.current_thread())  # ATOMIC: discard()
 
 
 def _check_sigchld():
-- 
2.43.0


From 32f5a26f92fd8bc1a3319a4e50dbe5ab35d3a0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 31/40] fix: a failing I/O task or substitution no longer cuts
 cancel_timeout short

---
 shellous/runner.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 90f3c03..44940b2 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -609,6 +609,7 @@ class Runner:
 
         # The timeout must not cut the `cancel_timeout` short.
         self._stop_timer()
+        failure = None
 
         try:
             # If not already done, send cancel signal.
@@ -616,7 +617,16 @@ class Runner:
                 self._signal(cancel_signal)
 
             if self._tasks:
-                await harvest(*self._tasks, timeout=cancel_timeout, trustee=self)
+                try:
+                    await harvest(*self._tasks, timeout=cancel_timeout, trustee=self)
+                except Exception as ex:
+                    # A failed task must not cut the `cancel_timeout` short.
+                    if not any(
+                        task.done() and not task.cancelled() and task.exception() is ex
+                        for task in self._tasks
+                    ):
+                        raise
+                    failure = ex
 
             if self._proc.returncode is None:
                 await harvest(self._waiter(), timeout=cancel_timeout, trustee=self)
@@ -632,6 +642,9 @@ class Runner:
             await self._kill_wait()
             raise
 
+        if failure is not None and not self._cancelled:
+            raise failure
+
     def _signal(self, sig: Optional[int]):
         "Send a signal to the process."
         assert self._proc is not None  # (pyright)
-- 
2.43.0


From 2af254df5d4cb752d46e999d282dfe0e112ca114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 32/40] fix: close a file given as stdout or stderr with
 close=True after the launch

---
 shellous/runner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index 44940b2..7c99af9 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -363,6 +363,8 @@ class _RunOptions:
             # Client-managed File-like object.
             _set_position(output, append)
             stdout = output
+            if close:
+                self.open_fds.append(output)
         else:
             raise TypeError(f"unsupported output type: {output!r}")
 
-- 
2.43.0


From d88b5f1fa0383f20eeba295b4eff6e2ef08a32f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 33/40] fix: close a descriptor only once when it is used for
 two streams with close=True

---
 shellous/runner.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 7c99af9..1f88048 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -276,11 +276,17 @@ class _RunOptions:
             self.kwd_args["close_fds"] = True
             self.kwd_args.setdefault("pass_fds", []).extend(options.pass_fds)
             if options.pass_fds_close:
-                self.open_fds.extend(options.pass_fds)
+                for fdesc in options.pass_fds:
+                    self._close_later(fdesc)
         elif "close_fds" not in self.kwd_args:
             # Only set close_fds if it is not already set.
             self.kwd_args["close_fds"] = options.close_fds
 
+    def _close_later(self, fdesc: Any):
+        "Close `fdesc` (exactly once) after the process is launched."
+        if fdesc not in self.open_fds:
+            self.open_fds.append(fdesc)
+
     def _setup_input(self, input_: Any, close: bool, encoding: str):
         "Set up process input."
         assert input_ is not None
@@ -306,7 +312,7 @@ class _RunOptions:
         elif isinstance(input_, int):  # file descriptor
             stdin = input_
             if close:
-                self.open_fds.append(stdin)
+                self._close_later(stdin)
         elif isinstance(input_, str):
             input_bytes = encode_bytes(input_, encoding)
         elif isinstance(input_, (asyncio.StreamReader, io.BytesIO, io.StringIO)):
@@ -352,7 +358,7 @@ class _RunOptions:
             # File descriptor or magic constant (e.g. DEVNULL).
             stdout = output
             if close:
-                self.open_fds.append(stdout)
+                self._close_later(stdout)
         elif isinstance(
             output, (io.StringIO, io.BytesIO, bytearray, Logger, asyncio.StreamWriter)
         ):
@@ -364,7 +370,7 @@ class _RunOptions:
             _set_position(output, append)
             stdout = output
             if close:
-                self.open_fds.append(output)
+                self._close_later(output)
         else:
             raise TypeError(f"unsupported output type: {output!r}")
 
-- 
2.43.0


From f43d562aa02d6e1dcdc13fccd5bd7bbcfef6fbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:55 +0000
Subject: [PATCH 34/40] fix: close the descriptors of process substitutions
 that are never started

---
 shellous/runner.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index 1f88048..eee08e1 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -144,10 +144,8 @@ class _RunOptions:
         except Exception as ex:
             if LOG_DETAIL:
                 LOGGER.debug("_RunOptions.enter %r ex=%r", self.command.name, ex)
-            _cleanup(self.command, self.open_fds)
+            _cleanup(self.command, self.open_fds, self.subcmds)
             self.open_fds.clear()
-            for subcmd in self.subcmds:
-                _cleanup(subcmd)
             raise
 
         assert _cmd is self.command, "self.command should remain unchanged"
@@ -1433,11 +1431,13 @@ def _is_multiple_capture(cmd: "shellous.Command[Any]"):
 def _cleanup(
     command: "Union[shellous.Command[Any], shellous.Pipeline[Any]]",
     other_fds: Iterable[Union[int, SupportsClose]] = (),
+    subcmds: "Iterable[Union[shellous.Command[Any], shellous.Pipeline[Any]]]" = (),
 ):
     """Close remaining file descriptors that need to be closed.
 
-    `other_fds` may also include some of the command's file descriptors; each
-    one is closed only once.
+    This includes those of the command's process substitutions. `other_fds` and
+    `subcmds` may also include some of the command's file descriptors; each one
+    is closed only once.
     """
 
     def _add(fdesc: Any):
@@ -1453,12 +1453,19 @@ def _cleanup(
     for fdesc in other_fds:
         _add(fdesc)
 
-    if isinstance(command, shellous.Pipeline):
-        commands = command.commands
-    else:
-        commands = (command,)
+    commands: list[Any] = [command, *subcmds]
 
-    for cmd in commands:
+    while commands:
+        cmd = commands.pop(0)
+        if isinstance(cmd, shellous.Pipeline):
+            commands.extend(cmd.commands)
+            continue
+
+        commands.extend(
+            arg
+            for arg in cmd.args
+            if isinstance(arg, (shellous.Command, shellous.Pipeline))
+        )
         _add_close(cmd.options.input_close, cmd.options.input)
         _add_close(cmd.options.output_close, cmd.options.output)
         _add_close(cmd.options.error_close, cmd.options.error)
-- 
2.43.0


From 0ab5b6f3a5b36a755c6bfa305ae389f58ac732d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:10 +0000
Subject: [PATCH 35/40] fix: a failed pipeline member stops the others in async
 with, async for and prompt

---
 shellous/runner.py | 41 +++++++++++++++++++++++++++++++++++++----
 1 file changed, 37 insertions(+), 4 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index eee08e1..b3bf7a8 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -25,7 +25,12 @@ from shellous import pty_util
 from shellous.harvest import harvest, harvest_results
 from shellous.log import LOG_DETAIL, LOGGER, log_method, log_timer
 from shellous.redirect import Redirect
-from shellous.result import Result, check_result, convert_result_list
+from shellous.result import (
+    Result,
+    ResultError,
+    check_result,
+    convert_result_list,
+)
 from shellous.util import (
     BSD_DERIVED,
     SupportsClose,
@@ -1124,6 +1129,7 @@ class PipeRunner:
     _tasks: list[asyncio.Task[Any]]
     _encoding: str
     _cancelled: bool = False
+    _stopping: bool = False
     _results: Optional[list[Union[BaseException, Result]]] = None
     _pid: int = -1
 
@@ -1183,6 +1189,27 @@ class PipeRunner:
         self._tasks.append(task)
         return task
 
+    def _task_done(self, task: asyncio.Task[Any]):
+        """Stop the other commands if one fails before we wait for them.
+
+        Within an `async with` block, the caller may be waiting for output from
+        the other commands. A non-zero exit status, or input that was not read,
+        is not a failure here.
+        """
+        if self._stopping or task.cancelled():
+            return
+        ex = task.exception()
+        if ex is not None and not isinstance(
+            ex, (ResultError, BrokenPipeError, ConnectionResetError)
+        ):
+            self._stop_tasks()
+
+    def _stop_tasks(self):
+        "Cancel every task, once only."
+        self._stopping = True
+        for task in self._tasks:
+            task.cancel()
+
     @log_method(LOG_DETAIL)
     async def _wait(self, *, kill: bool = False):
         "Wait for pipeline to finish."
@@ -1190,14 +1217,17 @@ class PipeRunner:
 
         return_when = asyncio.FIRST_EXCEPTION
 
-        if kill:
+        if kill and not self._stopping:
             LOGGER.debug("PipeRunner.wait killing pipe %r", self)
-            for task in self._tasks:
-                task.cancel()
+            self._stop_tasks()
+
+        if self._stopping:
             # Every task is already cancelled. Cancelling a task for a second
             # time would kill its process without waiting for `cancel_timeout`.
             return_when = asyncio.ALL_COMPLETED
 
+        self._stopping = True
+
         cancelled, self._results = await harvest_results(
             *self._tasks,
             trustee=self,
@@ -1362,6 +1392,9 @@ class PipeRunner:
         )
         self._pid = first_ready.pid
 
+        for task in self._tasks:
+            task.add_done_callback(self._task_done)
+
         return (stdin, stdout, stderr)
 
     def __repr__(self) -> str:
-- 
2.43.0


From 5da17ff5df3485d93f8240d938e118089fc949a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:32 +0000
Subject: [PATCH 36/40] fix: a pipeline or substitution with a cancel_timeout
 over 15 s was left running

---
 shellous/harvest.py | 10 +++++-----
 shellous/runner.py  | 11 +++++++++--
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/shellous/harvest.py b/shellous/harvest.py
index e00eb37..72965f1 100644
--- a/shellous/harvest.py
+++ b/shellous/harvest.py
@@ -11,7 +11,7 @@ _CANCEL_TIMEOUT = 15.0  # seconds to wait for cancelled task to finish
 async def harvest(
     *aws: Awaitable[Any],
     timeout: Optional[float] = None,
-    cancel_timeout: float = _CANCEL_TIMEOUT,
+    cancel_timeout: Optional[float] = _CANCEL_TIMEOUT,
     trustee: Any = None,
     cancel_finish: bool = False,
 ) -> None:
@@ -51,7 +51,7 @@ async def harvest(
 async def harvest_results(
     *aws: Awaitable[Any],
     timeout: Optional[float] = None,
-    cancel_timeout: float = _CANCEL_TIMEOUT,
+    cancel_timeout: Optional[float] = _CANCEL_TIMEOUT,
     trustee: Any = None,
     return_when: str = asyncio.FIRST_EXCEPTION,
 ) -> tuple[bool, list[Any]]:
@@ -98,7 +98,7 @@ async def harvest_wait(
     tasks: Iterable[asyncio.Task[Any]],
     *,
     timeout: Optional[float] = None,
-    cancel_timeout: float = _CANCEL_TIMEOUT,
+    cancel_timeout: Optional[float] = _CANCEL_TIMEOUT,
     cancel_finish: bool = False,
     trustee: Any = None,
     return_when: str = asyncio.FIRST_EXCEPTION,
@@ -171,7 +171,7 @@ async def harvest_wait(
 async def _cancel_wait(
     tasks: Iterable[asyncio.Task[Any]],
     trustee: Any,
-    cancel_timeout: float,
+    cancel_timeout: Optional[float],
     cancel_finish: bool = False,
 ) -> bool:
     """Cancel tasks and wait for them to finish.
@@ -199,7 +199,7 @@ async def _cancel_wait(
 async def _cancel_waiter(
     tasks: Iterable[asyncio.Task[Any]],
     trustee: Any,
-    timeout: float,
+    timeout: Optional[float],
 ):
     "Handle case where _cancel_wait is cancelled itself."
     _, pending = await asyncio.wait(
diff --git a/shellous/runner.py b/shellous/runner.py
index b3bf7a8..dbfeb1e 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -582,7 +582,8 @@ class Runner:
 
         try:
             if self._tasks:
-                await harvest(*self._tasks, trustee=self)
+                # Every task has a time limit of its own (its `cancel_timeout`).
+                await harvest(*self._tasks, cancel_timeout=None, trustee=self)
             if self._is_bsd_pty():
                 await self._waiter()
 
@@ -629,7 +630,12 @@ class Runner:
 
             if self._tasks:
                 try:
-                    await harvest(*self._tasks, timeout=cancel_timeout, trustee=self)
+                    await harvest(
+                        *self._tasks,
+                        timeout=cancel_timeout,
+                        cancel_timeout=None,
+                        trustee=self,
+                    )
                 except Exception as ex:
                     # A failed task must not cut the `cancel_timeout` short.
                     if not any(
@@ -1230,6 +1236,7 @@ class PipeRunner:
 
         cancelled, self._results = await harvest_results(
             *self._tasks,
+            cancel_timeout=None,  # each command has a time limit of its own
             trustee=self,
             return_when=return_when,
         )
-- 
2.43.0


From ff2c3a595741af32d6e713f87bb406e9800626fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:32 +0000
Subject: [PATCH 37/40] fix: an audit callback that raises no longer leaves the
 process running

If the callback raised when reporting a signal, the signal was not sent and
the process was left running. If it raised on 'start' in a pipeline, the
command's descriptors were left open.
---
 shellous/runner.py | 41 +++++++++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index dbfeb1e..d12ab8a 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -564,12 +564,12 @@ class Runner:
     def send_signal(self, sig: int) -> None:
         "Send an arbitrary signal to the process if it is running."
         if self.returncode is None:
-            self._signal(sig)
+            self._signal(sig, check=True)
 
     def cancel(self) -> None:
         "Cancel the running process if it is running."
         if self.returncode is None:
-            self._signal(self.command.options.cancel_signal)
+            self._signal(self.command.options.cancel_signal, check=True)
 
     def _is_bsd_pty(self) -> bool:
         "Return true if we're running a pty on BSD."
@@ -626,7 +626,7 @@ class Runner:
         try:
             # If not already done, send cancel signal.
             if self._proc.returncode is None:
-                self._signal(cancel_signal)
+                failure = self._signal(cancel_signal)
 
             if self._tasks:
                 try:
@@ -662,13 +662,27 @@ class Runner:
         if failure is not None and not self._cancelled:
             raise failure
 
-    def _signal(self, sig: Optional[int]):
-        "Send a signal to the process."
+    def _signal(
+        self,
+        sig: Optional[int],
+        *,
+        check: bool = False,
+    ) -> Optional[Exception]:
+        """Send a signal to the process.
+
+        The signal is sent even if the audit callback fails. The failure is
+        returned, or raised if `check` is True.
+        """
         assert self._proc is not None  # (pyright)
 
         if LOG_DETAIL:
             LOGGER.debug("Runner.signal %r signal=%r", self, sig)
-        self._audit_callback("signal", signal=sig)
+
+        failure = None
+        try:
+            self._audit_callback("signal", signal=sig)
+        except Exception as ex:
+            failure = ex
 
         if sig is None:
             self._proc.kill()
@@ -676,6 +690,10 @@ class Runner:
             self._proc.send_signal(sig)
             self._last_signal = sig
 
+        if check and failure is not None:
+            raise failure
+        return failure
+
     @log_method(LOG_DETAIL)
     async def _kill_wait(self):
         "Wait for killed process to exit."
@@ -685,10 +703,13 @@ class Runner:
         if self._proc.returncode is not None:
             return
 
-        self._signal(None)
+        failure = self._signal(None)
         # Always wait for the process to exit, even if cancelled again.
         await uninterrupted(self._wait_killed())
 
+        if failure is not None and not self._cancelled:
+            raise failure
+
     @log_method(LOG_DETAIL)
     async def _wait_killed(self):
         "Wait for killed process to exit, within a time limit."
@@ -707,7 +728,11 @@ class Runner:
     @log_method(LOG_DETAIL)
     async def __aenter__(self):
         "Set up redirections and launch subprocess."
-        self._audit_callback("start")
+        try:
+            self._audit_callback("start")
+        except BaseException:
+            _cleanup(self.command)
+            raise
         try:
             return await self._start()
         except BaseException as ex:
-- 
2.43.0


From b0d0c85f6bd3d1b1413050715cb012435dea083c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:16 +0000
Subject: [PATCH 38/40] fix: a task added to a pipeline no longer breaks its
 result()

---
 shellous/runner.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/shellous/runner.py b/shellous/runner.py
index d12ab8a..bfd22d9 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -1259,7 +1259,7 @@ class PipeRunner:
 
         self._stopping = True
 
-        cancelled, self._results = await harvest_results(
+        cancelled, results = await harvest_results(
             *self._tasks,
             cancel_timeout=None,  # each command has a time limit of its own
             trustee=self,
@@ -1269,6 +1269,11 @@ class PipeRunner:
             self._cancelled = True
         self._tasks.clear()  # clear all tasks when done
 
+        # A task added by the caller has no `Result`, but its failure counts.
+        count = len(self._pipe.commands)
+        failures = [res for res in results[count:] if isinstance(res, Exception)]
+        self._results = failures + results[:count]
+
     @log_method(LOG_DETAIL)
     async def __aenter__(self) -> "PipeRunner":
         "Set up redirections and launch pipeline."
-- 
2.43.0


From 136dab3a5fa086fa473685093f020c4414d5c59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:12 +0000
Subject: [PATCH 39/40] fix: empty input on a terminal is followed by one
 end-of-file, not two

---
 shellous/redirect.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shellous/redirect.py b/shellous/redirect.py
index b41d6c7..028aa76 100644
--- a/shellous/redirect.py
+++ b/shellous/redirect.py
@@ -150,7 +150,7 @@ async def write_stream(
         # of closing the pty. At the beginning of a line, we only need to
         # send one EOF. Otherwise, we need to send one EOF to end the
         # partial line and then another EOF to signal we are done.
-        if not input_bytes.endswith(b"\n"):
+        if input_bytes and not input_bytes.endswith(b"\n"):
             stream.write(eof + eof)
         else:
             stream.write(eof)
-- 
2.43.0


From 2f0d726de3d863ec9b934cf684cef18d21cabb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:11 +0000
Subject: [PATCH 40/40] fix: a program found through an empty search path entry
 is the one that is started

shutil.which() returns a bare name for a program in the current directory, and
the subprocess module searched the child's PATH for it again.
---
 shellous/runner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shellous/runner.py b/shellous/runner.py
index bfd22d9..791c4c7 100644
--- a/shellous/runner.py
+++ b/shellous/runner.py
@@ -144,6 +144,9 @@ class _RunOptions:
                 found_executable = _cmd.options.which(executable)
                 if found_executable is None:
                     raise FileNotFoundError(executable)
+                if not os.path.dirname(found_executable):
+                    # An empty entry in PATH means the current directory.
+                    found_executable = os.path.abspath(found_executable)
                 self.pos_args[0] = found_executable
 
         except Exception as ex:
-- 
2.43.0

