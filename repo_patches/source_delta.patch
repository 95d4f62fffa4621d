From a925f1aa14b47392074e8acc6a9fada792a7bb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 01/73] fix: record a registry listing atomically in the cache

A process killed (or a disk filling up) while the listing was written left a truncated
listing which every later process trusted, and a concurrent process could read it half
written. Write to a temporary name and rename; skip blank lines of a cached listing.
---
 src/mccode_antlr/reader/registry.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 8ff0fc5..97e9936 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -96,6 +96,20 @@ def _name_plus_suffix(name: str, suffix: str = None):
     return path.as_posix()
 
 
+def _write_then_rename(path: Path, contents: str):
+    """Write a file such that no reader can ever find it incomplete, even if writing it is interrupted"""
+    from os import replace
+    from uuid import uuid4
+    partial = path.with_name(f'.{path.name}.{uuid4().hex}.part')
+    try:
+        with partial.open('w') as file:
+            file.write(contents)
+        replace(partial, path)
+    except BaseException:
+        partial.unlink(missing_ok=True)
+        raise
+
+
 def find_registry_file(name: str):
     """Find a registry file in the mccode_antlr package"""
     from importlib.resources import files
@@ -239,7 +253,7 @@ class GitHubRegistry(RemoteRegistry):
                 from loguru import logger
                 logger.error(f'Registry file {registry_file_path} exists but is not readable')
             with registry_file_path.open('r') as file:
-                registry = {k: v for k, v in [x.strip().split(maxsplit=1) for x in file.readlines() if len(x)]}
+                registry = {k: v for k, v in [x.strip().split(maxsplit=1) for x in file.read().split('\n') if len(x.strip())]}
         else:
             import requests
             # We allow a full-dictionary to be provided, otherwise we expect the registry file to be available from the
@@ -251,8 +265,7 @@ class GitHubRegistry(RemoteRegistry):
                 registry = {k: v for k, v in [x.split(maxsplit=1) for x in r.text.split('\n') if len(x)]}
             # stash-away the registry file to be re-read next time
             registry_file_path.parent.mkdir(parents=True, exist_ok=True)
-            with registry_file_path.open('w') as file:
-                file.writelines('\n'.join([f'{k} {v}' for k, v in registry.items()]))
+            _write_then_rename(registry_file_path, '\n'.join([f'{k} {v}' for k, v in registry.items()]))
 
         self.pooch = pooch.create(
             path=cache_path,
-- 
2.43.0


From 6c17bd567e1df8bcc8ca9a4123facfbcc760cafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 02/73] fix: match whole path elements when asking whether a
 remote file is known

'Arm.comp' was reported as known when only 'MyArm.comp' is listed, so a component of
another name was loaded silently in its place (or shadowed a registry that has it).
---
 src/mccode_antlr/reader/registry.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 97e9936..17e2c1b 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -151,10 +151,11 @@ class RemoteRegistry(Registry):
     def known(self, name: str, ext: str = None, strict: bool = False):
         compare = _name_plus_suffix(name, ext)
         # the files *in* the registry are already posix paths, so that makes life easier
-        if any(x.endswith(compare) for x in self.pooch.registry_files):
+        # match whole path elements, 'Arm.comp' should not be found in 'optics/MyArm.comp'
+        if any(f'/{x}'.endswith(f'/{compare}') for x in self.pooch.registry_files):
             return True
         # fall back to matching without the extension:
-        if any(Path(x).with_suffix('').as_posix().endswith(compare) for x in self.pooch.registry_files):
+        if any(f"/{Path(x).with_suffix('').as_posix()}".endswith(f'/{compare}') for x in self.pooch.registry_files):
             return True
         # Or matching *any* file that contains name
         return False if strict else any(name in x for x in self.pooch.registry_files)
-- 
2.43.0


From 82652fa924f49c6d702e9a597c29718dcbe767ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:24 +0000
Subject: [PATCH 03/73] fix: take only complete version tags from the remote's
 tag list

A pre-release or otherwise named tag (v3.6.0-rc1, other-v1.2) contributed its version-like
part as if it were an advertised tag, so 'latest' could select a tag that does not exist.
---
 src/mccode_antlr/reader/registry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 17e2c1b..11a45c3 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -479,7 +479,8 @@ def _mccode_pooch_registries():
         import git
         g = git.cmd.Git()
         res = g.ls_remote(url, sort='-v:refname', tags=True)
-        ex = re.compile(r'v\d+(?:\.\d+(?:\.\d+)?)?')
+        # only complete tag names, not the first part of 'v3.6.0-rc1' or the last of 'other-v1.2'
+        ex = re.compile(r'^\S+\s+refs/tags/(v\d+(?:\.\d+(?:\.\d+)?)?)\s*$', re.MULTILINE)
         return ex.findall(res)
 
     def source_registry_tag():
-- 
2.43.0


From d498b74f7e339e32030f1b4ebb05abd49877959e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:55 +0000
Subject: [PATCH 04/73] fix: reject a detector file that ends within a line

---
 src/mccode_antlr/loader/datfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 7fa3107..ef335db 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -24,6 +24,8 @@ class DatFileCommon:
             raise RuntimeError(f'{filename} does not name a valid file')
         with source.open('r') as file:
             lines = file.readlines()
+        if not lines or not lines[-1].endswith('\n'):
+            raise RuntimeError(f'{filename} is truncated')
 
         header = [x.strip(' #\n') for x in filter(lambda x: x[0] == '#', lines)]
         meta = {k.strip(): v.strip() for k, v in
-- 
2.43.0


From 506f67d33a2148ee0a479d40727841e0ae5d0a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:17 +0000
Subject: [PATCH 05/73] fix: keep provenance of a merged detector file that is
 part of another's

---
 src/mccode_antlr/loader/datfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index ef335db..dff9ab4 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -260,7 +260,7 @@ def combine_scan_dicts(a: dict, b: dict):
         if any(s in k for s in special_add):
             c[k] = int(c[k]) + int(v)
         elif any(s in k for s in special_concatenate):
-            if v not in c[k]:
+            if f' {v} ' not in f' {c[k]} ':
                 c[k] = f'{c[k]} {v}'
         elif any(s in k for s in special_ignore):
             pass
-- 
2.43.0


From 29e2c66cebf9e23f0603c26fe2f0b3d7c193733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:44 +0000
Subject: [PATCH 06/73] fix: never add or join instrument parameters when
 merging detector files

---
 src/mccode_antlr/loader/datfile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index dff9ab4..b625aca 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -81,7 +81,9 @@ class DatFileCommon:
         if not self.safe_to_combine(other):
             raise RuntimeError('Cannot combine these two dat files')
         metadata = combine_scan_dicts(self.metadata, other.metadata)
-        parameters = combine_scan_dicts(self.parameters, other.parameters)
+        if self.parameters != other.parameters:
+            raise RuntimeError(f'Incompatible parameters {self.parameters} and {other.parameters}')
+        parameters = dict(self.parameters)
         variables = combine_scan_lists(self.variables, other.variables)
         data = combine_scan_data(self.data, other.data)
         return DatFileCommon(Path(), metadata, parameters, variables, data)
-- 
2.43.0


From 734c7e7d5b90a227840e6d0eac50da97561414dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:05 +0000
Subject: [PATCH 07/73] fix: merge 0-D detector files

---
 src/mccode_antlr/loader/datfile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index b625aca..5cb73f2 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -126,7 +126,7 @@ class DatFile0D(DatFileCommon):
         return first, second
 
     def safe_to_combine(self, other):
-        if not isinstance(other, DatFile1D):
+        if not isinstance(other, DatFile0D):
             return False
         if self.variables != other.variables:
             return False
@@ -136,7 +136,7 @@ class DatFile0D(DatFileCommon):
 
     def __add__(self, other):
         both = super().__add__(other)
-        return DatFile1D(both.source, both.metadata, both.parameters, both.variables, both.data)
+        return DatFile0D(both.source, both.metadata, both.parameters, both.variables, both.data)
 
 
 @dataclass
@@ -283,11 +283,11 @@ def combine_scan_lists(a: list, b: list):
 def combine_scan_data(a: ndarray, b: ndarray):
     if a.shape != b.shape:
         raise RuntimeError(f'Incompatible shapes {a.shape} and {b.shape}')
-    if a.ndim == 2:
+    if a.ndim == 1 or a.ndim == 2:
         from copy import deepcopy
         # variables are _always_ (?) (..., I, I_err, N)
         c = deepcopy(a)
-        c[-3:, :] = a[-3:, :] + b[-3:, :]
+        c[-3:] = a[-3:] + b[-3:]
         return c
     elif a.ndim == 3:
         # but 3-D _only_ contains (I, I_err, N)
-- 
2.43.0


From dcbd244638f1bd3b964bdb4b04cdde1959d810f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:30 +0000
Subject: [PATCH 08/73] fix: never write a merged detector file over one that
 appeared meanwhile

---
 src/mccode_antlr/loader/datfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/datfile.py b/src/mccode_antlr/loader/datfile.py
index 5cb73f2..511e946 100644
--- a/src/mccode_antlr/loader/datfile.py
+++ b/src/mccode_antlr/loader/datfile.py
@@ -48,7 +48,7 @@ class DatFileCommon:
         if sink.exists():
             raise RuntimeError(f'{filename} already exists')
         first, second = self.parts()
-        with sink.open('w') as file:
+        with sink.open('x') as file:
             for item in first:
                 print(f'# {item}: {self.metadata[item]}', file=file)
             for param in self.parameters:
-- 
2.43.0


From 78518bfefcb2c9afd9d8a982ffb8d83a903cf50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 09/73] fix: add the errors of repeated detector entries in
 quadrature

---
 src/mccode_antlr/loader/simfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index 5e77c39..af48ce4 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -313,7 +313,7 @@ class SimFileData:
         # The values line is always "{float} {float} {int}" which _I think_ is <intensity>, <error>, and event count
         s_intensity, s_error, s_counts = split_values(self.values)
         o_intensity, o_error, o_counts = split_values(other.values)
-        out.values = f"{s_intensity + o_intensity} {sqrt(s_error * s_error + o_error + o_error)} {s_counts + o_counts}"
+        out.values = f"{s_intensity + o_intensity} {sqrt(s_error * s_error + o_error * o_error)} {s_counts + o_counts}"
 
         # The signal line is always? "None" or "Min={float}; Max={float}; Mean={float};"
         # we can combine min and max, but not mean (without knowing the number of points)
-- 
2.43.0


From a00fe6fd385845e3fcd92d5e5483ca86c46215c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:23 +0000
Subject: [PATCH 10/73] fix: keep every 0-D entry of a component when merging
 simulation summaries

---
 src/mccode_antlr/loader/simfile.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index af48ce4..500be13 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -406,6 +406,16 @@ def read_mccode_sim(filename: Union[str, Path]):
     return SimFile.load(filename)
 
 
+def numbered_data(data: list[SimFileData]):
+    """Identify each detector entry, also if one component has multiple (0-D) entries for the same filename"""
+    from collections import Counter
+    count = Counter()
+    for datum in data:
+        key = (datum.component, datum.filename)
+        yield (*key, count[key]), datum
+        count[key] += 1
+
+
 def combine_mccode_sims(sims: list[SimFile]):
     """Combine multiple McCode simulation files together into a single file.
 
@@ -428,13 +438,12 @@ def combine_mccode_sims(sims: list[SimFile]):
     header = sims[0].header
     instrument = sims[0].instrument
     simulation = sims[0].simulation
-    data = {(d.component, d.filename): d for d in sims[0].data}
+    data = dict(numbered_data(sims[0].data))
     for sim in sims[1:]:
         header = header.combine(sim.header)
         instrument = instrument.combine(sim.instrument)
         simulation = simulation.combine(sim.simulation)
-        for datum in sim.data:
-            key = (datum.component, datum.filename)
+        for key, datum in numbered_data(sim.data):
             if key not in data:
                 data[key] = datum
             else:
-- 
2.43.0


From d296d2821c52514522a85c75726fc7af762b74b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:39 +0000
Subject: [PATCH 11/73] fix: merge detector entries which saw no events

---
 src/mccode_antlr/loader/simfile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index 500be13..7480fdc 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -313,6 +313,8 @@ class SimFileData:
         # The values line is always "{float} {float} {int}" which _I think_ is <intensity>, <error>, and event count
         s_intensity, s_error, s_counts = split_values(self.values)
         o_intensity, o_error, o_counts = split_values(other.values)
+        # no events at all carry no weight, and have nothing to normalise by
+        counts = s_counts + o_counts or 1
         out.values = f"{s_intensity + o_intensity} {sqrt(s_error * s_error + o_error * o_error)} {s_counts + o_counts}"
 
         # The signal line is always? "None" or "Min={float}; Max={float}; Mean={float};"
@@ -322,7 +324,7 @@ class SimFileData:
         else:
             s_min, s_max, s_mean = split_signal(self.signal)
             o_min, o_max, o_mean = split_signal(other.signal)
-            mean_estimate = (s_mean * s_counts + o_mean * o_counts)/(s_counts + o_counts)
+            mean_estimate = (s_mean * s_counts + o_mean * o_counts)/counts
             out.signal = f"Min={min(s_min, o_min)}; Max={max(s_max, o_max)}; Mean={mean_estimate};"
 
         # Statistics: one of "None", "X0={float}; dX={float};" or "X0={float}; dX={float}; Y0={float}; dY={float};"
@@ -337,11 +339,11 @@ class SimFileData:
             for d in ('X', 'Y'):
                 d0, dd = f'{d}0', f'd{d}'
                 if d0 in s_stats and d0 in o_stats:
-                    stats[d0] = (s_stats[d0] * s_counts + o_stats[d0] * o_counts)/(s_counts + o_counts)
+                    stats[d0] = (s_stats[d0] * s_counts + o_stats[d0] * o_counts)/counts
                 if dd in s_stats and dd in o_stats:
                     sd = s_stats[dd] * s_counts
                     od = o_stats[dd] * o_counts
-                    stats[dd] = sqrt(sd * sd + od * od) / (s_counts + o_counts)
+                    stats[dd] = sqrt(sd * sd + od * od) / counts
             out.statistics = ' '.join([f"{k}={stats[k]};" for k in ['X0', 'dX', 'Y0', 'dY'] if k in stats])
         return out
 
-- 
2.43.0


From 0657116f25aad7a0a68cc521769a4c3c5e599ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:17 +0000
Subject: [PATCH 12/73] fix: reject a simulation summary that ends within a
 block

---
 src/mccode_antlr/loader/simfile.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index 7480fdc..b51ea9c 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -377,13 +377,16 @@ class SimFile:
         header, _, rest = contents.partition('begin instrument: ')
         instrument, _, rest = rest.partition('begin simulation: ')
         instrument, _, _ = instrument.partition('end instrument')
-        simulation, _, rest = rest.partition('end simulation')
+        simulation, end, rest = rest.partition('end simulation')
+        if not end:
+            raise RuntimeError("The simulation information is not complete")
         data = []
-        while rest:
-            datum, _, rest = rest.partition('end data')
-            _, _, datum = datum.partition('begin data')
-            if len(datum.strip()):
-                data.append(datum.strip())
+        while rest.strip():
+            datum, end, rest = rest.partition('end data')
+            extra, begin, datum = datum.partition('begin data')
+            if extra.strip() or not begin or not end:
+                raise RuntimeError(f"Data entry {len(data) + 1} is not complete")
+            data.append(datum.strip())
 
         # convert sub-strings into objects:
         header = SimFileHeader.parse(header)
-- 
2.43.0


From c54303225cdd9cb0c07f7209d77f6281bc2a4dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 13/73] fix: leave an existing simulation summary intact if
 saving fails

---
 src/mccode_antlr/atomic.py         | 32 ++++++++++++++++++++++++++++++
 src/mccode_antlr/loader/simfile.py |  8 ++++----
 2 files changed, 36 insertions(+), 4 deletions(-)
 create mode 100644 src/mccode_antlr/atomic.py

diff --git a/src/mccode_antlr/atomic.py b/src/mccode_antlr/atomic.py
new file mode 100644
index 0000000..b59cbca
--- /dev/null
+++ b/src/mccode_antlr/atomic.py
@@ -0,0 +1,32 @@
+from __future__ import annotations
+
+from contextlib import contextmanager
+from pathlib import Path
+
+
+@contextmanager
+def replacing(filename: str | Path):
+    """Yield a temporary file path, which takes the place of `filename` if (and only if) the context exits normally
+
+    No reader can find an incomplete file, and an existing file stays as it was if writing its replacement fails.
+    """
+    from os import replace
+    from shutil import copymode
+    from uuid import uuid4
+    target = Path(filename).resolve()
+    if target.exists() and not target.is_file():
+        # a pipe, terminal, or other special file can not be replaced
+        yield target
+        return
+    partial = target.with_name(f'.{target.name}.{uuid4().hex}.part')
+    try:
+        yield partial
+        if target.exists():
+            copymode(target, partial)
+        replace(partial, target)
+    except BaseException:
+        try:
+            partial.unlink(missing_ok=True)
+        except OSError:
+            pass
+        raise
diff --git a/src/mccode_antlr/loader/simfile.py b/src/mccode_antlr/loader/simfile.py
index b51ea9c..86df94e 100644
--- a/src/mccode_antlr/loader/simfile.py
+++ b/src/mccode_antlr/loader/simfile.py
@@ -366,10 +366,10 @@ class SimFile:
         return SimFile.parse(contents)
 
     def save(self, filename: Union[str, Path]):
-        if not isinstance(filename, Path):
-            filename = Path(filename)
-        with filename.open('w') as f:
-            self.to_file(f)
+        from mccode_antlr.atomic import replacing
+        with replacing(filename) as partial:
+            with partial.open('w') as f:
+                self.to_file(f)
 
     @staticmethod
     def parse(contents: str):
-- 
2.43.0


From 75761465a9bbd385c447e98817b7c97e39a41331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:59 +0000
Subject: [PATCH 14/73] fix: show and save settings whose siblings come from
 another configuration source

---
 src/mccode_antlr/cli/management.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index 40df507..ffaaa0d 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -7,11 +7,20 @@ def config_dump(config):
     return dump(config)
 
 
+def config_values(view):
+    """All values below a view, each from its highest priority source (get returns only what that one source has)"""
+    from confuse import ConfigTypeError
+    try:
+        return view.flatten()
+    except ConfigTypeError:
+        return view.get()
+
+
 def config_list(regex):
     from pathlib import Path
     from mccode_antlr.config import config as c
     config_dir = Path(c.config_dir())
-    d = {k: c[k].get() for k in list(c)}
+    d = {k: config_values(c[k]) for k in list(c)}
     print(config_dump(d))
 
 
@@ -30,7 +39,7 @@ def config_get(key, verbose):
                 return
             else:
                 return
-    d = c.get()
+    d = config_values(c)
     if key:
         d = {key: d}
     print(config_dump(d))
@@ -56,7 +65,7 @@ def config_save(path, verbose):
     from pathlib import Path
     from mccode_antlr.config import config as c
     config_dir = Path(path or c.config_dir())
-    d = {k: c[k].get() for k in list(c)}
+    d = {k: config_values(c[k]) for k in list(c)}
     config_file = config_dir.joinpath('config.yaml')
     with config_file.open('w') as file:
         file.write(config_dump(d))
-- 
2.43.0


From 5276a855586a117de234952613298947d62ed08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:13 +0000
Subject: [PATCH 15/73] fix: leave the existing configuration intact if saving
 fails

---
 src/mccode_antlr/cli/management.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index ffaaa0d..7582bc9 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -63,12 +63,14 @@ def config_unset(key):
 
 def config_save(path, verbose):
     from pathlib import Path
+    from mccode_antlr.atomic import replacing
     from mccode_antlr.config import config as c
     config_dir = Path(path or c.config_dir())
     d = {k: config_values(c[k]) for k in list(c)}
     config_file = config_dir.joinpath('config.yaml')
-    with config_file.open('w') as file:
-        file.write(config_dump(d))
+    with replacing(config_file) as partial:
+        with partial.open('w') as file:
+            file.write(config_dump(d))
     if verbose:
         print(f'Configuration written to {config_file}')
 
-- 
2.43.0


From 293018427ee2962f686ded1a724669463aebc42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 16/73] fix: never remove or list anything but a cache

---
 src/mccode_antlr/cli/management.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/cli/management.py b/src/mccode_antlr/cli/management.py
index 7582bc9..548b8ae 100644
--- a/src/mccode_antlr/cli/management.py
+++ b/src/mccode_antlr/cli/management.py
@@ -108,13 +108,23 @@ def cache_path():
     return os_cache(f'mccode_antlr')
 
 
+def cache_directory(name=None, version=None):
+    """The directory of all caches, of one cache, or of one version of it"""
+    from pathlib import PurePath
+    path = cache_path()
+    for part in (name, version):
+        if part is None:
+            continue
+        pure = PurePath(part)
+        if pure.anchor or '..' in pure.parts or not pure.parts:
+            raise RuntimeError(f'"{part}" does not name a cache')
+        path = path.joinpath(pure)
+    return path
+
+
 def cache_remove(name, version, force):
     from shutil import rmtree
-    path = cache_path()
-    if name is not None:
-        path = path.joinpath(name)
-    if version is not None:
-        path = path.joinpath(version)
+    path = cache_directory(name, version)
     if not force:
         response = input(f'Remove {path} and all contents? [yN] ')
         if 'yes' == response.lower() or 'y' == response.lower():
@@ -124,9 +134,7 @@ def cache_remove(name, version, force):
 
 
 def cache_list(name, long):
-    path = cache_path()
-    if name is not None:
-        path = path.joinpath(name)
+    path = cache_directory(name)
     dirs = sorted([d for d in path.iterdir() if d.is_dir()], key=lambda x: x.name)
     dstr = '\n'.join(f'  {d if long else d.name}' for d in dirs)
     n = len(dirs)
-- 
2.43.0


From 0fad047f7bad83af9bf4ae426f1270366ac659b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:08 +0000
Subject: [PATCH 17/73] fix: a sign after another operator was lost (2*-a was
 read as -a)

---
 src/mccode_antlr/common/visitor.py | 56 +++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/common/visitor.py b/src/mccode_antlr/common/visitor.py
index d262d29..02713a5 100644
--- a/src/mccode_antlr/common/visitor.py
+++ b/src/mccode_antlr/common/visitor.py
@@ -8,6 +8,51 @@ def visitSomething(obj, ctx):
 def getExpr(obj, ctx):
     return obj.visit(ctx)
 
+def _arithmetic_terms(ctx):
+    """The operands and operators of a chain of arithmetic operations, in the order in which they were written
+
+    The grammar allows an expression to be empty, and reads the sign in, e.g., `a * -b` as the subtraction of `b` from
+    the product of `a` and nothing. An empty operand is left out, so that the operator following it is known to be a sign.
+    """
+    if type(ctx).__name__ in ('ExpressionBinaryPMContext', 'ExpressionBinaryMDContext', 'ExpressionExponentiationContext'):
+        left, right = ctx.expr()
+        yield from _arithmetic_terms(left)
+        yield next(op for op in '+-*/^' if any(str(c) == op for c in ctx.getChildren()))
+        yield from _arithmetic_terms(right)
+    elif ctx.getChildCount():
+        yield ctx
+
+def _arithmetic(obj, ctx):
+    terms = list(_arithmetic_terms(ctx))
+
+    def following(*ops):
+        return terms and any(terms[0] == op for op in ops)
+
+    def signed(operand):
+        if following('+', '-'):
+            return signed(operand) if terms.pop(0) == '+' else -signed(operand)
+        return operand()
+
+    def power():
+        if not terms or isinstance(terms[0], str):
+            raise RuntimeError(f'Missing operand in {ctx.getText()}')
+        base = obj.visit(terms.pop(0))
+        if following('^'):
+            terms.pop(0)
+            return base ** signed(power)
+        return base
+
+    def product():
+        value = power()
+        while following('*', '/'):
+            value = value * signed(power) if terms.pop(0) == '*' else value / signed(power)
+        return value
+
+    total = signed(product)
+    while following('+', '-'):
+        total = total + signed(product) if terms.pop(0) == '+' else total - signed(product)
+    return total
+
 # TODO (maybe) Add control and statements into McCode, requiring some form of global stack.
 def visitExpressionUnaryPM(obj, ctx):
     right = obj.visit(ctx.expr())
@@ -48,13 +93,10 @@ def visitExpressionZero(obj, ctx):
     return Expr.int(0)
 
 def visitExpressionExponentiation(obj, ctx):
-    base, exponent = [obj.visit(ex) for ex in ctx.expr()]
-    return base ** exponent
+    return _arithmetic(obj, ctx)
 
 def visitExpressionBinaryPM(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return left + right if ctx.Minus() is None else left - right
+    return _arithmetic(obj, ctx)
 
 def visitExpressionFunctionCall(obj, ctx):
     function = Value(str(ctx.Identifier()), object_type=ObjectType.function)
@@ -63,9 +105,7 @@ def visitExpressionFunctionCall(obj, ctx):
     return Expr(BinaryOp('__call__', function, args))
 
 def visitExpressionBinaryMD(obj, ctx):
-    # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-    left, right = [obj.visit(ex) for ex in ctx.expr()]
-    return left * right if ctx.Div() is None else left / right
+    return _arithmetic(obj, ctx)
 
 def visitExpressionBinaryMod(obj, ctx):
     # `ctx.left` and `ctx.right` are not exposed by speedy-antlr-tool
-- 
2.43.0


From 4187b2c3b091bf5196a6b86a8a819245021596f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:18 +0000
Subject: [PATCH 18/73] fix: JUMP to NEXT(n) or PREVIOUS(n) raised a TypeError

---
 src/mccode_antlr/instr/visitor.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index e6e68d8..d9e06d1 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -238,14 +238,14 @@ class InstrVisitor(McInstrVisitor):
 
     def visitJumpPrevious(self, ctx: McInstrParser.JumpPreviousContext):
         i = ctx.IntegerLiteral()
-        return ("PREVIOUS", -1) if i is None else (f"PREVIOUS_{i}", -int(i))
+        return ("PREVIOUS", -1) if i is None else (f"PREVIOUS_{i}", -int(str(i)))
 
     def visitJumpMyself(self, ctx: McInstrParser.JumpMyselfContext):
         return "MYSELF", 0
 
     def visitJumpNext(self, ctx: McInstrParser.JumpNextContext):
         i = ctx.IntegerLiteral()
-        return ("NEXT", 1) if i is None else (f"NEXT_{i}", int(i))
+        return ("NEXT", 1) if i is None else (f"NEXT_{i}", int(str(i)))
 
     def visitJumpIdentifier(self, ctx: McInstrParser.JumpIdentifierContext):
         return str(ctx.Identifier()), 0
-- 
2.43.0


From b3aa800e6eab923733f6046c04cb82a35d931622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:28 +0000
Subject: [PATCH 19/73] fix: a SAVE section in an instrument with parameters
 did not compile

---
 src/mccode_antlr/translators/c_save.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_save.py b/src/mccode_antlr/translators/c_save.py
index b4eeb49..4fdcd61 100644
--- a/src/mccode_antlr/translators/c_save.py
+++ b/src/mccode_antlr/translators/c_save.py
@@ -22,7 +22,7 @@ def cogen_save(source, declared_parameters):
         ])
         for par in source.parameters:
             # ensure there's no conflict of names
-            lines.append(f'  #define {par.name} (instrument->_parameters.{par.name}')
+            lines.append(f'  #define {par.name} (instrument->_parameters.{par.name})')
         for block in source.save:
             lines.append(block.to_c())
         for par in source.parameters:
-- 
2.43.0


From e41943def5e33e3f08de8d148b3ac5c5d2f9b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:37 +0000
Subject: [PATCH 20/73] fix: a component with FINALLY but without MCDISPLAY, or
 the reverse, could not be displayed

---
 src/mccode_antlr/translators/c_display.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_display.py b/src/mccode_antlr/translators/c_display.py
index 671d8c1..6cb3747 100644
--- a/src/mccode_antlr/translators/c_display.py
+++ b/src/mccode_antlr/translators/c_display.py
@@ -71,7 +71,7 @@ def cogen_comp_display_class(comp, declared_parameters):
         f'void class_{comp.name}_display(_class_{comp.name} *_comp) {{',
         cogen_parameter_define(comp, declared_parameters)
     ]
-    f, n = comp.display[0].fn if len(comp.final) else (comp.name, 0)
+    f, n = comp.display[0].fn if len(comp.display) else (comp.name, 0)
     lines.append(f'  SIG_MESSAGE("[_{comp.name}_display] component NULL={comp.name}() [{f}:{n}]");')
     lines.append('  printf("MCDISPLAY: component %s\\n", _comp->_name);')
 
-- 
2.43.0


From 7718c1117891eb54f3d69eaf7d12d6568e7050ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:37 +0000
Subject: [PATCH 21/73] fix: a vector parameter was allocated with the type of
 another parameter

---
 src/mccode_antlr/translators/c_initialise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index d0582ea..a6d5b80 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -132,7 +132,7 @@ def cogen_comp_setpos(index, comp, last, instr, component_declared_parameters):
         elif default.value.is_vector or p.value.is_vector:
             if p.value.vector_known:
                 # hack-in an allocator for the fixed-length allocated array
-                c_type = par.value.mccode_c_type.translate(str.maketrans('', '', ' *'))  # strip the trailing ' *'
+                c_type = default.value.mccode_c_type.translate(str.maketrans('', '', ' *'))  # strip the trailing ' *'
                 pl.append(f'  {fullname} = calloc(sizeof({c_type}), {len(p.value.value)});')
                 for i, v in enumerate(p.value.value):
                     pl.append(f'  {fullname}[{i}] = {v};')
-- 
2.43.0


From 44568af5464537de28cc436cb72a4c9526a8dbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:34 +0000
Subject: [PATCH 22/73] fix: an instrument with both GROUP and SPLIT did not
 compile

---
 src/mccode_antlr/translators/c_decls.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/c_decls.py b/src/mccode_antlr/translators/c_decls.py
index 65c713e..37af563 100644
--- a/src/mccode_antlr/translators/c_decls.py
+++ b/src/mccode_antlr/translators/c_decls.py
@@ -30,7 +30,7 @@ def declarations_pre_libraries(source, typedefs: list, component_declared_parame
     def control_statement_logic():
         lines = "\n/* instrument SPLIT and GROUP control logic */\nstruct instrument_logic_struct{\n"
         comment = '/* equals index of scattering comp when in group */'
-        lines += '\n'.join(f'  long Group_{name}; {comment}' for name in source.groups)
+        lines += ''.join(f'  long Group_{name}; {comment}\n' for name in source.groups)
         c1 = '/* this is the SPLIT counter decremented down to 0 */'
         c2 = '/* this is the particle to duplicate */'
         lines += '\n'.join(
-- 
2.43.0


From 52f9f0805b06bb62b600803124e12a1c84bd0730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:34 +0000
Subject: [PATCH 23/73] fix: leading components which do nothing displaced the
 frame of those after them

---
 src/mccode_antlr/translators/c_initialise.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/translators/c_initialise.py b/src/mccode_antlr/translators/c_initialise.py
index a6d5b80..b6e09a7 100644
--- a/src/mccode_antlr/translators/c_initialise.py
+++ b/src/mccode_antlr/translators/c_initialise.py
@@ -36,7 +36,8 @@ def _split_xyz_ref(xyz_ref):
 
 
 def cogen_comp_init_position(index, comp, last, instr):
-    ref = None if index == 0 else instr.components[last]
+    # with no component before this one which transforms the coordinates, particles are still in the absolute frame
+    ref = None if last is None else instr.components[last]
     var = f'_{comp.name}_var'
     lines = [
         f'  /* component {comp.name}={comp.type.name}() AT ROTATED */',
@@ -62,7 +63,7 @@ def cogen_comp_init_position(index, comp, last, instr):
             f'    rot_mul(tr1, _{rel.name}_var._rotation_absolute, {var}._rotation_absolute);'
         ])
     # Sort out relative orientation
-    if index == 0:
+    if ref is None:
         lines.append(f'    rot_copy({var}._rotation_relative, {var}._rotation_absolute);')
     else:
         lines.extend([
@@ -84,7 +85,7 @@ def cogen_comp_init_position(index, comp, last, instr):
             '    tc2 = rot_apply(tr1, tc1);',
             f'    {var}._position_absolute = coords_add(_{rel.name}_var._position_absolute, tc2);'
         ])
-    if index == 0:
+    if ref is None:
         lines.append(f'    tc1 = coords_neg({var}._position_absolute);')
     else:
         lines.append(f'    tc1 = coords_sub(_{ref.name}_var._position_absolute, {var}._position_absolute);')
@@ -230,10 +231,10 @@ def cogen_initialize(source, component_declared_parameters, ok_to_skip):
              "***************************************************************************** */",
              _GETDISTANCE_FCT, ""]
 
-    last = 0
+    last = None
     for idx, comp in enumerate(source.components):
         lines.extend(cogen_comp_setpos(idx, comp, last, source, component_declared_parameters))
-        if ok_to_skip is not None and not ok_to_skip[idx]:
+        if ok_to_skip is None or not ok_to_skip[idx]:
             last = idx
 
     # generate class functions
-- 
2.43.0


From 4cbb3d48b1d943cc93f3a73535937e851a33ee55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:34 +0000
Subject: [PATCH 24/73] fix: a GROUP member which is not executed took over the
 outcome of the one before

---
 src/mccode_antlr/translators/c_raytrace.py | 2 ++
 src/mccode_antlr/translators/target.py     | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index 03adf47..74ac0c5 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -86,6 +86,8 @@ def cogen_raytrace(source, ok_to_skip):
                 f'      DEBUG_COMP(_{comp.name}_var._name);',
                 '      DEBUG_STATE();'
             ])
+        if comp.group is not None:
+            lines.append('      SCATTERED = 0; // only this GROUP member decides, even if it is not executed')
         if len(comp.type.trace) or len(comp.extend):
             # WHEN
             if comp.when is not None:
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index d2d4f1c..f7ae8ec 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -203,6 +203,9 @@ class TargetVisitor:
             # Any component with a TRACE or EXTEND can not be skipped
             if any(not x.is_empty for x in comp.extend) or any(not x.is_empty for x in comp.type.trace):
                 return False
+            # A group passes on the particle in the coordinate system of every one of its members
+            if comp.group is not None:
+                return False
             # Any component jumping elsewhere can not be skipped
             if len(comp.jump):
                 return False
-- 
2.43.0


From 7953e123c5ca21edf8afc31c3439313471b89d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:49 +0000
Subject: [PATCH 25/73] fix: in the FUNNEL form a GROUP was left in the wrong
 frame, state or place

---
 src/mccode_antlr/translators/c_raytrace.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/translators/c_raytrace.py b/src/mccode_antlr/translators/c_raytrace.py
index 74ac0c5..59ac158 100644
--- a/src/mccode_antlr/translators/c_raytrace.py
+++ b/src/mccode_antlr/translators/c_raytrace.py
@@ -370,10 +370,11 @@ def cogen_funnel(source, ok_to_skip):
 
         lines.extend([
             f'      // {comp.name}',
-            f'      if (!ABSORBED && _particle->_index == {index+1}) {{',
         ])
         if not ok_to_skip[index]:
+            # also needed if the component is passed by, since the next transform starts from its coordinates
             lines.extend([
+                '      if (!ABSORBED) {',
                 "        #ifndef MULTICORE",
                 f"        if (_{comp.name}_var._rotation_is_identity) {{",
                 f"          coords_get(coords_add(coords_set(x,y,z), _{comp.name}_var._position_relative),&x, &y, &z);",
@@ -382,8 +383,13 @@ def cogen_funnel(source, ok_to_skip):
                 "        {",
                 f"          mccoordschange(_{comp.name}_var._position_relative, _{comp.name}_var._rotation_relative, _particle);",
                 '        }',
-                "        _particle_save = *_particle;",
+                '      }',
             ])
+        lines.append(f'      if (!ABSORBED && _particle->_index == {index+1}) {{')
+        if not ok_to_skip[index]:
+            lines.append("        _particle_save = *_particle;")
+        if comp.group is not None:
+            lines.append('        SCATTERED = 0; // only this GROUP member decides, even if it is not executed')
         if len(comp.type.trace) or len(comp.extend):
             if comp.when is not None:
                 lines.append(f'    if (({comp.when:p}))  // conditional WHEN')
@@ -402,14 +408,14 @@ def cogen_funnel(source, ok_to_skip):
             lines.extend([
                 f'    // GROUP {group.name}: from {group.first.name} [{group.first_id}] to {ln} [{lid}]',
                 # Skip over when SCATTERED in the group:
-                f'    if (SCATTERED) _particle->_index = {lid}; '
+                f'    if (SCATTERED) _particle->_index = {1+lid}; '
                 '// when SCATTERED in GROUP: reach exit of GROUP after {ln}',
                 #
             ])
             if index == lid:
                 lines.append('    else ABSORBED=1; // Not SCATTERED by end of GROUP: removes left events')
             else:
-                lines.append("      else ABSORBED=0; // not SCATTERED within GROUP: always tries next")
+                lines.append("      else particle_restore(_particle, &_particle_save); // not SCATTERED within GROUP: always tries next")
 
         lines.append("        _particle->_index++;")
         lines.append("      }")
-- 
2.43.0


From b4b54ef0062d45991a3b058c37a250c971e91625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:01 +0000
Subject: [PATCH 26/73] fix: instrument parameters in WHEN, SPLIT, JUMP and
 placements of assembled instruments were not found

---
 src/mccode_antlr/instr/instance.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index e436a05..47e839b 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -153,11 +153,14 @@ class Instance:
         self.parameters += (ComponentParameter(p.name, value), )
 
     def verify_parameters(self, instrument_parameters: tuple[InstrumentParameter, ...]):
-        """Check for instance parameters which are identifiers that match instrument parameter names,
+        """Check for identifiers in any expression of this instance that match instrument parameter names,
         and flag them as parameter objects"""
         instrument_parameter_names = [x.name for x in instrument_parameters]
-        for par in self.parameters:
-            par.value.verify_parameters(instrument_parameter_names)
+        expressions = [par.value for par in self.parameters] + [jump.condition for jump in self.jump]
+        expressions.extend([*self.at_relative[0], *self.rotate_relative[0], self.split, self.when])
+        for expr in expressions:
+            if isinstance(expr, Expr):
+                expr.verify_parameters(instrument_parameter_names)
 
     def get_parameter(self, name: str):
         for par in self.parameters:
-- 
2.43.0


From d359f1368596b6164c472654a47b8034152c2ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:57 +0000
Subject: [PATCH 27/73] fix: a copied instance jumped to the target of the
 instance it was copied from

---
 src/mccode_antlr/instr/instance.py     |  5 +++--
 src/mccode_antlr/instr/jump.py         |  4 ++++
 src/mccode_antlr/translators/target.py | 15 +++++++--------
 3 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 47e839b..3f391f9 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -92,7 +92,7 @@ class Instance:
                    parameters=tuple([par for par in ref.parameters]),
                    when=ref.when, group=ref.group,
                    extend=tuple([ext for ext in ref.extend]),
-                   jump=tuple([jmp for jmp in ref.jump]),
+                   jump=tuple([jmp.copy() for jmp in ref.jump]),
                    metadata=tuple([md for md in ref.metadata]),
                    mode=ref.mode)
 
@@ -231,7 +231,8 @@ class Instance:
         return Instance(self.name, self.type, self.at_relative, self.rotate_relative,
                         orientation=self.orientation, parameters=self.parameters,
                         removable=self.removable, cpu=self.cpu, split=self.split, when=self.when,
-                        group=self.group, extend=self.extend, jump=self.jump, metadata=self.metadata)
+                        group=self.group, extend=self.extend, jump=tuple([jmp.copy() for jmp in self.jump]),
+                        metadata=self.metadata)
 
     def parameter_used(self, name: str):
         if any([name in par.value for par in self.parameters]):
diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index 261b35a..d2d9f56 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -21,5 +21,9 @@ class Jump:
         when_iter = 'ITERATE' if self.iterate else 'WHEN'
         print(wrapper.line('JUMP', [jump_name, when_iter, str(self.condition)]), file=output)
 
+    def copy(self):
+        """A Jump holds its position in one list of components, and can not be shared with a different instance"""
+        return Jump(self.target, self.relative_target, self.iterate, self.condition)
+
     def __contains__(self, value):
         return value in self.condition
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index f7ae8ec..f83864a 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -220,17 +220,16 @@ class TargetVisitor:
         self.ok_to_skip = can_skip_transform
 
     def set_jump_absolute_targets(self):
+        names = [c.name for c in self.source.components]
         for index, jump in [(i, j) for i, c in enumerate(self.source.components) for j in c.jump]:
             # jump is a dataclass with 'target', 'index', 'iterate', 'condition', and 'actual_target_index'
-            if jump.absolute_target > -1:
-                # Somewhere/something already set the actual target index -- we don't have a choice but to trust it
-                continue
-            if jump.relative_target == 0 and jump.target.lower() != 'myself':
-                # the target is another named component:
-                jump.absolute_target = [i for i, c in enumerate(self.source.components) if jump.target == c.name][0]
-                jump.relative_target = jump.absolute_target - index
-            else:
+            # The absolute target always follows from the present order of the components, if the target is one of them
+            if jump.relative_target != 0 or jump.target.lower() == 'myself':
                 jump.absolute_target = index + jump.relative_target
+            elif jump.target in names:
+                jump.absolute_target = names.index(jump.target)
+            elif jump.absolute_target < 0:
+                raise RuntimeError(f'Unknown JUMP target {jump.target} in {self.source.components[index].name}')
 
     def enter_trace(self):
         pass
-- 
2.43.0


From e9194576b2a42678e49437235f6538478200e3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:13 +0000
Subject: [PATCH 28/73] fix: registries added by SEARCH statements were lost
 before translation

---
 src/mccode_antlr/loader/loader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/loader/loader.py b/src/mccode_antlr/loader/loader.py
index 5aaffce..cabe445 100644
--- a/src/mccode_antlr/loader/loader.py
+++ b/src/mccode_antlr/loader/loader.py
@@ -23,7 +23,8 @@ def parse_mccode_instr(contents: str, registries: list[Registry], source: str =
     visitor = InstrVisitor(reader, source or '<string>')
     instr = visitor.visitProg(McInstr_parse(InputStream(contents), 'prog'))
     instr.flags += tuple(reader.c_flags)
-    instr.registries += tuple(registries)
+    # the reader also has the registries added by SEARCH statements, in the order in which they are searched
+    instr.registries += tuple(reader.registries)
     return instr
 
 
-- 
2.43.0


From 6daa2f07aaf5b88803d374f9a1321dec068cb3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:13 +0000
Subject: [PATCH 29/73] fix: the order of compile flags depended on the hash
 seed

---
 src/mccode_antlr/instr/instr.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 0acb67b..2dac2f9 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -287,14 +287,14 @@ class Instr:
         return flag
 
     @property
-    def unique_flags(self) -> set[str]:
+    def unique_flags(self) -> list[str]:
         # Each 'flag' in self.flags is from a single instrument component DEPENDENCY,
         # and might contain duplicates: If we accept that white space differences
-        # matter, we can deduplicate the strings 'easily'
-        uf = set(self.flags)
+        # matter, we can deduplicate the strings 'easily'. The order is important to the compiler and linker.
+        uf = list(self.flags)
         if any(inst.cpu for inst in self.components):
-            uf.add('-DFUNNEL')
-        return uf
+            uf.append('-DFUNNEL')
+        return list(dict.fromkeys(uf))
 
     def decoded_flags(self) -> list[str]:
         # The dependency strings are allowed to contain any of
-- 
2.43.0


From c6def5a0df6c0c6afb4492b0f5a0e77d0fc39ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:13 +0000
Subject: [PATCH 30/73] fix: the order of included libraries depended on the
 hash seed and some hierarchies were refused

---
 src/mccode_antlr/translators/c.py | 58 ++++++++++++++-----------------
 1 file changed, 27 insertions(+), 31 deletions(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index 262b0be..bda4ec6 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -36,39 +36,35 @@ class CInclude:
 
 
 def sort_include_hierarchy(includes: list[CInclude]):
-    if len(includes) == 0:
-        return []
+    """Order the includes such that every library comes once and after all libraries which it includes itself
+
+    If A includes B and C, and C includes B, then we get [A:B, A:C] or [C:B, A:C]
+    Or a more complicated case: G:(Z,A,W), Z:(B,Y), A:X, W:Y -> [Z:B, Z:Y, G:Z, A:X, G:A, G:W]
+    The result depends only on the order of the includes.
+    """
     logger.debug(f'sort includes {" ".join(str(x) for x in includes)}')
-    # find the 'root' of the tree, a parent which is _not_ a named include:
-    roots = list(set([x.parent for x in includes]).difference(set([x.name for x in includes])))
-    options = {}
-    for root in roots:
-        for include in includes:
-            include.root = root
-        # Sort the includes such that if A includes B and C, and C includes B, then we get [C:B, A:C, A:B]
-        # Or a more complicated case: G:(Z,A,W), Z:(B,Y), A:X, W(Y) -> [Z:Y, W:Y, A:X, B:W, Z:B, G:A, G:Z, G:W]
-        used, output = [], []
-        for include in sorted(includes, reverse=True):
-            if include.name not in used:
-                output.append(include)
-                used.append(include.name)
-        # Reduce output to [C:B, A:C], or [Z:Y, A:X, B:W, Z:B, G:A, G:Z], which would include the libraries correctly
-        # Double check, that the include order does not _directly_ contradict one of the include directives:
-        order = [x.name for x in output]
-        contradicts = False
-        for include in includes:
-            if include.parent in order and include.name in order:
-                parent_at = [index for index, name in enumerate(order) if name == include.parent][0]
-                name_at = [index for index, name in enumerate(order) if name == include.name][0]
-                if name_at > parent_at:
-                    contradicts = True
-        if not contradicts:
-            logger.debug(f"sorted to {'  '.join(order)}")
-            options[root] = output
-    if len(options) == 0:
+    named, children = {}, {}
+    for include in includes:
+        named.setdefault(include.name, include)
+        children.setdefault(include.parent, []).append(include.name)
+    used, output = set(), []
+
+    def add(name):
+        if name in used:
+            return
+        used.add(name)
+        for child in children.get(name, ()):
+            add(child)
+        output.append(named[name])
+
+    for include in includes:
+        # the 'roots' of the hierarchy are the parents which are _not_ a named include
+        if include.parent not in named:
+            add(include.name)
+    if len(output) != len(named):
         raise RuntimeError(f'No valid sorting of {includes=}')
-    # Maybe there's a case where the specified root matters?
-    return list(options.values())[0]
+    logger.debug(f"sorted to {'  '.join(x.name for x in output)}")
+    return output
 
 
 class CTargetVisitor(TargetVisitor, target_language='c'):
-- 
2.43.0


From 3090e087fea2c22e117e80a24773134f878fca49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:29 +0000
Subject: [PATCH 31/73] fix: libraries included only from library sources were
 repeated or came in the wrong order

---
 src/mccode_antlr/translators/c.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/translators/c.py b/src/mccode_antlr/translators/c.py
index bda4ec6..edc0d78 100644
--- a/src/mccode_antlr/translators/c.py
+++ b/src/mccode_antlr/translators/c.py
@@ -324,18 +324,19 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
         self.out(f'/* Contents of {header.name}.h (requested from {header.parent}) */')
         self.out(header.content)
 
-    def include_source(self, source: CInclude):
+    def include_source(self, source: CInclude, lib_names: set[str]):
         self.info(f'include {source} source')
         # c files can %include *more* files! If the specified files have already been included, there's nothing
         # to do. Otherwise, panic.
-        lib_names = [lib.name for lib in self.includes]
         c_name = f'{source.name}.c'
         c_libraries, c_content = self._handle_raw_c_include(c_name, self._file_contents(c_name))
-        for c_lib in [c_lib for c_lib in c_libraries if c_lib.name not in lib_names]:
+        c_libraries = [c_lib for c_lib in sort_include_hierarchy(c_libraries) if c_lib.name not in lib_names]
+        lib_names.update(c_lib.name for c_lib in c_libraries)
+        for c_lib in c_libraries:
             logger.info(f'{c_name} requested {c_lib.name} but is has not been included yet!')
             self.include_header(c_lib)
-            self.include_source(c_lib)
-            #self.includes.append(c_lib)
+        for c_lib in c_libraries:
+            self.include_source(c_lib, lib_names)
         self.out(f'/* Contents of {source.name}.c (requested from {source.parent}) */')
         self.out(c_content)
 
@@ -354,8 +355,9 @@ class CTargetVisitor(TargetVisitor, target_language='c'):
 
         self.info('Include runtime / list dependencies')
         if self.config.get('include_runtime'):
+            lib_names = {lib.name for lib in self.includes}
             for include in self.includes:
-                self.include_source(include)
+                self.include_source(include, lib_names)
         else:
             for include in self.includes:
                 print(f'Dependency: {include.name}.o')
-- 
2.43.0


From a02d76f71d471fe1791937cf257f51c323f2faf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 32/73] fix: the output of a failed translation was taken for a
 complete one

---
 src/mccode_antlr/translators/target.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index f83864a..66e7569 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -143,6 +143,16 @@ class TargetVisitor:
                 return self.output
             self.output.close()
         self.output = StringIO()
+        try:
+            self._translate()
+        except BaseException:
+            # an incomplete translation must not be mistaken for a complete one later
+            self.output.close()
+            self.output = None
+            raise
+        return self.output
+
+    def _translate(self):
         self.info('visit header')
         self.visit_header()
         self.info('visit declare')
@@ -177,7 +187,6 @@ class TargetVisitor:
         self.visit_flags()
         if self.verbose and self.warnings:
             print(f"Build of instrument {self.source.name} had {self.warnings} warnings")
-        return self.output
 
     def save(self, filename=None, close=True, reprocess=True):
         self.translate(reprocess=reprocess)
-- 
2.43.0


From 30faaa50692af98f4195b74d8f1bdb8f44271341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:24 +0000
Subject: [PATCH 33/73] fix: a failed or interrupted write left a partial C
 file and destroyed the old one

---
 src/mccode_antlr/translators/target.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 66e7569..33ffc4a 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -1,4 +1,5 @@
 from io import StringIO
+from ..atomic import replacing
 from ..instr import Instr, Instance
 from ..comp import Comp
 from loguru import logger
@@ -191,7 +192,7 @@ class TargetVisitor:
     def save(self, filename=None, close=True, reprocess=True):
         self.translate(reprocess=reprocess)
         if filename:
-            with open(filename, 'w') as file:
+            with replacing(filename) as partial, open(partial, 'w') as file:
                 file.write(self.output.getvalue())
         if close:
             self.output.close()
-- 
2.43.0


From dddc40cae8e4174caf363e74ff7b077478f0b451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:21 +0000
Subject: [PATCH 34/73] fix: expressions with an assigned data type could not
 be loaded from HDF5

---
 src/mccode_antlr/io/hdf5.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 808f0fc..6149c59 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -271,9 +271,8 @@ def _op_io(typename, fields: list[str]):
                 raise ValueError(f"Could not load values for {typename}")
             op = typename(attrs['op'], **values)
             op.style = attrs['style']
-            if op.data_type != DataType.from_name(attrs['data_type_name']):
-                raise ValueError(
-                    f"Loaded {typename} with data type {op.data_type}, but expected {attrs['data_type_name']}")
+            # The data type can be specified independently of the values, e.g. for the elements of a Vector
+            op.data_type = DataType.from_name(attrs['data_type_name'])
             return op
 
         @staticmethod
-- 
2.43.0


From 94044ef8734dfce170fc42b6b9f61fc6f60e9a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 35/73] fix: the priority of an instrument's registries was
 lost in HDF5 files

---
 src/mccode_antlr/io/hdf5.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 6149c59..8d9ec44 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -187,7 +187,7 @@ def RemoteRegistryIO(actual_type):
         @staticmethod
         def load(group, **kwargs) -> RemoteRegistry:
             _check_header(group, actual_type)
-            values = _standard_read(actual_type, group, actual_type.file_keys(), (), (), **kwargs)
+            values = _standard_read(actual_type, group, actual_type.file_keys() + ('priority',), (), (), **kwargs)
             try:
                 return actual_type(**values)
             except RuntimeError:
@@ -196,7 +196,7 @@ def RemoteRegistryIO(actual_type):
 
         @staticmethod
         def save(group, data, **kwargs):
-            _standard_save(actual_type, group, data, actual_type.file_keys(), (), **kwargs)
+            _standard_save(actual_type, group, data, actual_type.file_keys() + ('priority',), (), **kwargs)
 
     return _RemoteRegistryIO
 
@@ -206,7 +206,7 @@ class LocalRegistryIO:
 
     @staticmethod
     def load(group, **kwargs) -> Registry:
-        values = _standard_read(LocalRegistryIO.LocalRegistry, group, ('name', 'root'), (), (), **kwargs)
+        values = _standard_read(LocalRegistryIO.LocalRegistry, group, ('name', 'root', 'priority'), (), (), **kwargs)
         try:
             return LocalRegistryIO.LocalRegistry(**values)
         except RuntimeError:
@@ -215,7 +215,7 @@ class LocalRegistryIO:
 
     @staticmethod
     def save(group, data, **kwargs):
-        _standard_save(LocalRegistryIO.LocalRegistry, group, data, ('name',), (), **kwargs)
+        _standard_save(LocalRegistryIO.LocalRegistry, group, data, ('name', 'priority'), (), **kwargs)
         if data.root is not None:
             group.attrs['root'] = data.root.as_posix()
 
-- 
2.43.0


From b7665a433061f030760acaaad6308721fd196a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 36/73] fix: the shape assigned to an expression was lost in
 HDF5 files

---
 src/mccode_antlr/io/hdf5.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 8d9ec44..ac14147 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -263,7 +263,7 @@ def _op_io(typename, fields: list[str]):
     class _OpIO:
         @staticmethod
         def load(group, **kwargs) -> typename:
-            from mccode_antlr.common.expression import DataType
+            from mccode_antlr.common.expression import DataType, ShapeType
             _check_header(group, typename)
             attrs = {name: group.attrs.get(name) for name in ('op', 'style', 'data_type_name')}
             values = {name: HDF5IO.load(group[name], **kwargs) for name in fields}
@@ -273,6 +273,8 @@ def _op_io(typename, fields: list[str]):
             op.style = attrs['style']
             # The data type can be specified independently of the values, e.g. for the elements of a Vector
             op.data_type = DataType.from_name(attrs['data_type_name'])
+            if 'shape_type_name' in group.attrs:
+                op.shape_type = ShapeType.from_name(group.attrs['shape_type_name'])
             return op
 
         @staticmethod
@@ -282,6 +284,8 @@ def _op_io(typename, fields: list[str]):
                 if getattr(data, name) is not None:
                     group.attrs[name] = getattr(data, name)
             group.attrs['data_type_name'] = data.data_type.name
+            if getattr(data, 'shape_type', None) is not None:
+                group.attrs['shape_type_name'] = data.shape_type.name
             for name in fields:
                 if getattr(data, name) is not None:
                     HDF5IO.save(group=group.create_group(name), data=getattr(data, name), **kwargs)
-- 
2.43.0


From 8ddc1e69bebf5621b3287bb82e5a55f15585f273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 37/73] fix: an instrument using an in-memory registry could
 not be loaded from its HDF5 file

---
 src/mccode_antlr/io/hdf5.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index ac14147..ef2b5a4 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -220,6 +220,25 @@ class LocalRegistryIO:
             group.attrs['root'] = data.root.as_posix()
 
 
+class InMemoryRegistryIO:
+    from mccode_antlr.reader.registry import InMemoryRegistry
+
+    @staticmethod
+    def load(group, **kwargs) -> InMemoryRegistry:
+        actual_type = InMemoryRegistryIO.InMemoryRegistry
+        values = _standard_read(actual_type, group, ('name', 'priority'), (), ('files',), **kwargs)
+        registry = actual_type(values['name'], priority=values['priority'])
+        for name, contents in values['files']:
+            registry.add(name, contents)
+        return registry
+
+    @staticmethod
+    def save(group, data, **kwargs):
+        _standard_save(InMemoryRegistryIO.InMemoryRegistry, group, data, ('name', 'priority'), (), **kwargs)
+        # file names are not restricted, while the names of HDF5 groups are
+        HDF5IO.save(group=group.create_group('files'), data=list(data.components.items()), **kwargs)
+
+
 def _seitz_part_io(actual_type):
     class _RotationPartIO:
         @staticmethod
@@ -415,6 +434,7 @@ class HDF5IO:
         'ModuleRemoteRegistry': RemoteRegistryIO(ModuleRemoteRegistry),
         'GitHubRegistry': RemoteRegistryIO(GitHubRegistry),
         'LocalRegistry': LocalRegistryIO,
+        'InMemoryRegistry': InMemoryRegistryIO,
         'ComponentParameter': _dataclass_io(ComponentParameter, attrs=('name',), required=('value',)),
         'Comp': _dataclass_io(Comp, attrs=('name', 'category', 'dependency', 'acc'),
                               optional=('define', 'setting', 'output', 'metadata', 'share', 'user',
-- 
2.43.0


From 6629f6b57cfab62595866617e2ff7936dc526bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 38/73] fix: save_hdf5 skipped objects it has no handler for,
 and wrote a file that can not be loaded

---
 src/mccode_antlr/io/hdf5.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index ef2b5a4..a9dfad8 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -481,16 +481,14 @@ class HDF5IO:
     def save(cls, group, data, **kwargs):
         name = data.__class__.__name__
         if name not in cls._handlers:
-            logger.warning(f'No handler for {type(data)}, skipping')
-            return None
+            raise RuntimeError(f'No handler for {type(data)}, which can not be saved')
         return cls._handlers[name].save(group, data, **kwargs)
 
     @classmethod
     def load(cls, group, **kwargs):
         version, name = _split_version_name(group.attrs[VERSION_NAME_KEY])
         if name not in cls._handlers:
-            logger.warning(f'No handler for {name}, skipping')
-            return None
+            raise RuntimeError(f'No handler for {name}, which can not be loaded')
         return cls._handlers[name].load(group, **kwargs)
 
 
-- 
2.43.0


From 5be7fb045967801718a5a879ccebaef16ef15ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:57 +0000
Subject: [PATCH 39/73] fix: a failed or interrupted save destroyed the
 existing HDF5 file

---
 src/mccode_antlr/io/hdf5.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index a9dfad8..9944d24 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -1,6 +1,7 @@
 from pathlib import Path
 from typing import Union
 from loguru import logger
+from mccode_antlr.atomic import replacing
 
 VERSION_NAME_KEY = 'mccode-antlr_version_data-type-name'
 
@@ -494,8 +495,9 @@ class HDF5IO:
 
 def save_hdf5(obj, filename: Union[str, Path]) -> None:
     import h5py
-    with h5py.File(filename, 'w', driver='core', backing_store=True) as file:
-        HDF5IO.save(file, obj)
+    with replacing(filename) as partial:
+        with h5py.File(partial, 'w', driver='core', backing_store=True) as file:
+            HDF5IO.save(file, obj)
 
 
 def load_hdf5(filename: Union[str, Path]):
-- 
2.43.0


From 2ac7ab81798ffc445a234df342393e17610e265d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:24 +0000
Subject: [PATCH 40/73] fix: an instrument loaded from HDF5 got an unusable
 registry if its listing could not be retrieved

---
 src/mccode_antlr/io/hdf5.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 9944d24..215d5d2 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -189,11 +189,8 @@ def RemoteRegistryIO(actual_type):
         def load(group, **kwargs) -> RemoteRegistry:
             _check_header(group, actual_type)
             values = _standard_read(actual_type, group, actual_type.file_keys() + ('priority',), (), (), **kwargs)
-            try:
-                return actual_type(**values)
-            except RuntimeError:
-                logger.warning(f'Unable to reconstruct {actual_type.__name__} registry from {values}')
-            return RemoteRegistry('loading error', None, None, None)
+            # If the registry can not be reconstructed neither can anything which needs it
+            return actual_type(**values)
 
         @staticmethod
         def save(group, data, **kwargs):
-- 
2.43.0


From 14d145afa5e71b87d7750cdbe31f59ac88a93916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:12 +0000
Subject: [PATCH 41/73] fix: the groups of an instrument came in alphabetical
 order from its HDF5 file

---
 src/mccode_antlr/io/hdf5.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/io/hdf5.py b/src/mccode_antlr/io/hdf5.py
index 215d5d2..0defbf1 100644
--- a/src/mccode_antlr/io/hdf5.py
+++ b/src/mccode_antlr/io/hdf5.py
@@ -385,11 +385,13 @@ class DictIO:
     @staticmethod
     def load(group, **kwargs) -> dict:
         _check_header(group, dict)
-        return {k: HDF5IO.load(group=group[k], **kwargs) for k in group}
+        # the order of the keys is significant, but iteration over an HDF5 group is in alphabetical order
+        return {k: HDF5IO.load(group=group[k], **kwargs) for k in group.attrs.get('keys', group)}
 
     @staticmethod
     def save(group, data: dict, **kwargs):
         _write_header(group, dict)
+        group.attrs['keys'] = list(data)
         for k, v in data.items():
             HDF5IO.save(group=group.create_group(k), data=v, **kwargs)
 
-- 
2.43.0


From 1af13716253d2f8b010ac54a92ebf5fac5344b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:44 +0000
Subject: [PATCH 42/73] fix: flags of an instrument read by a Reader, or
 included in another, were lost

Reader.get_instrument replaced the DEPENDENCY flags of the instrument by those of
its components, and an included instrument did not pass on its own.
---
 src/mccode_antlr/instr/visitor.py | 1 +
 src/mccode_antlr/reader/reader.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index d9e06d1..01323a5 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -89,6 +89,7 @@ class InstrVisitor(McInstrVisitor):
             self.state.add_parameter(par, ignore_repeated=True)
         for meta in instr.metadata:
             self.state.add_metadata(meta)
+        self.state.DEPENDENCY(*[flag for flag in instr.flags if flag not in self.state.flags])
         if len(instr.declare):
             self.state.declare += instr.declare
         if len(instr.user):
diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index c9c35da..d561e1b 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -170,6 +170,7 @@ class Reader:
         if not isinstance(res, Instr):
             raise RuntimeError(f'Parsing instrument file {filename} did not produce an Instr object')
         res.source = filename
-        res.flags = tuple(self.c_flags)
+        # in addition to the flags of the instrument itself, which its visitor has already stored
+        res.flags += tuple(self.c_flags)
         res.registries = tuple(self.registries)
         return res
-- 
2.43.0


From a7718ab5631f1d64c9350401f9ad54da3669a4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 43/73] fix: a failed or interrupted compilation left its
 partial output as the binary

The compiler wrote directly to the requested path, so that partial output (also
that of a successful exit without an executable result) was reused by the next
compilation or run, and a failed replacement destroyed the existing binary or
was reported as success if the old one was still there.
---
 src/mccode_antlr/compiler/c.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index c84b0a0..8cf4582 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -188,9 +188,9 @@ def _compile_instrument(
     gateway method instead to enable a cached check that your system compiler is
     configured correctly.
     """
-    from os import R_OK, access
-    from subprocess import run, CalledProcessError
+    from os import X_OK, access
     from platform import system
+    from tempfile import TemporaryDirectory
     from mccode_antlr.config import config
     logger.info(f'Compile {instrument.name}')
     # determine a name and location for the binary file
@@ -217,16 +217,25 @@ def _compile_instrument(
     _compile = windows_compile if 'Windows' == system() else linux_compile
     _handle_flags = windows_split_flags if 'Windows' == system() else linux_split_flags
     compiler_flags, linker_flags = _handle_flags(instrument, target)
-    command, result = _compile(target.compiler, compiler_flags, output, linker_flags, source)
-
-    if result.returncode:
-        stdout = result.stdout.decode() if isinstance(result.stdout, bytes) else result.stdout
-        stderr = result.stderr.decode() if isinstance(result.stderr, bytes) else result.stderr
-        raise RuntimeError(f"Compilation\n{' '.join(command)}\nfailed with output\n{stdout}\nand error\n{stderr}")
-    if not output.exists():
-        raise RuntimeError(f"Compilation should have produced {output}, but it does not appear to exist")
-    if not access(output, R_OK):
-        raise RuntimeError(f"{output} exists but is not an executable")
+    # The compiler works in a temporary directory, so that what it leaves behind if it fails (or is stopped) can not be
+    # mistaken for the binary, and a binary which should be replaced is kept until its replacement is complete.
+    with TemporaryDirectory(dir=output.parent, prefix=f'.{output.name}-') as directory:
+        built = Path(directory).joinpath(output.name)
+        command, result = _compile(target.compiler, compiler_flags, built, linker_flags, source)
+
+        if result.returncode:
+            stdout = result.stdout.decode() if isinstance(result.stdout, bytes) else result.stdout
+            stderr = result.stderr.decode() if isinstance(result.stderr, bytes) else result.stderr
+            raise RuntimeError(f"Compilation\n{' '.join(command)}\nfailed with output\n{stdout}\nand error\n{stderr}")
+        if not built.exists():
+            raise RuntimeError(f"Compilation should have produced {output}, but it does not appear to exist")
+        if not access(built, X_OK):
+            raise RuntimeError(f"{output} exists but is not an executable")
+        # anything else that the compiler has written beside the binary, e.g., debugging information, goes with it
+        for extra in Path(directory).iterdir():
+            if extra != built:
+                extra.replace(output.parent.joinpath(extra.name))
+        built.replace(output)
     return output
 
 
-- 
2.43.0


From dbef184fac5e128e2f651c55a31d52f45343c441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 44/73] fix: compilation failed if the messages of the compiler
 were not valid UTF-8

---
 src/mccode_antlr/compiler/c.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index 8cf4582..dbc6622 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -148,7 +148,8 @@ def linux_compile(compiler, compiler_flags, target, linker_flags, source):
     # The solitary '-' specifies *where* the stdin source should be processed, which is critical for getting
     # linking flags right on (some) Linux systems
     command = [compiler, *compiler_flags, '-o', str(target), '-', *linker_flags]
-    result = run(command, input=source, text=True, capture_output=True)
+    # the messages of a compiler, which can quote any file, are not necessarily valid text
+    result = run(command, input=source, encoding='utf-8', errors='replace', capture_output=True)
     return command, result
 
 
-- 
2.43.0


From a1e2358824482f2336e80a296725565c1b89ea05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 45/73] fix: a failed check of the compiler was final for the
 process

A temporary reason (a network or disk error, a killed compiler) made every later
compilation of the process fail.
---
 src/mccode_antlr/compiler/check.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/compiler/check.py b/src/mccode_antlr/compiler/check.py
index cfed4b6..aa12627 100644
--- a/src/mccode_antlr/compiler/check.py
+++ b/src/mccode_antlr/compiler/check.py
@@ -1,7 +1,21 @@
 from __future__ import annotations
-from functools import cache
+from functools import wraps
 
-@cache
+
+def cache_success(method):
+    """Remember only that the check succeeded: a reason to fail can be temporary"""
+    succeeded = set()
+
+    @wraps(method)
+    def wrapper(which: str) -> bool:
+        if which not in succeeded and method(which):
+            succeeded.add(which)
+        return which in succeeded
+
+    return wrapper
+
+
+@cache_success
 def check_for_mccode_antlr_compiler(path: str) -> bool:
     from shutil import which
     from loguru import logger
@@ -57,7 +71,7 @@ def compiles(compiler: str, instr):
     return True
 
 
-@cache
+@cache_success
 def simple_instr_compiles(which: str) -> bool:
     from subprocess import CalledProcessError
     if not check_for_mccode_antlr_compiler(which):
-- 
2.43.0


From a219a2312913098a2d796a81d174cb996a33ef4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:23 +0000
Subject: [PATCH 46/73] fix: an existing binary could not be run

mccode_run and the command line handed the options of a target, instead of a
target, to run_compiled_instrument, and accepted a file which is not executable.
---
 src/mccode_antlr/run/runner.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 0a09363..f512c33 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -194,8 +194,9 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
                mesh: bool = False, seed: int | None = None, ncount: int | None = None,
                gravitation: bool | None = None, bufsize: int | None = None, dryrun: bool = False, fmt: str | None = None,
                ):
-    from os import access, R_OK
+    from os import access, X_OK
     from datetime import datetime
+    from mccode_antlr.compiler.c import CBinaryTarget
     if not isinstance(directory, Path):
         directory = Path(directory)
     if binary_name is not None:
@@ -203,13 +204,15 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
     else:
         binary_path = directory.joinpath(instrument.name)
 
-    if binary_path.exists() and not access(binary_path, R_OK):
+    if binary_path.exists() and not access(binary_path, X_OK):
         raise ValueError(f"{binary_path} exists but is not an executable")
 
     target = {'mpi': parallel, 'acc': gpu, 'count': process_count, 'nexus': False}
     if not binary_path.exists():
         config = {'enable_trace': trace, 'embed_instrument_file': source, 'verbose': verbose}
         binary_path, target = mccode_compile(instrument, binary_path, generator, target=target, config=config)
+    else:
+        target = CBinaryTarget(**target)
 
     runtime = dict(
         seed=seed,
@@ -228,6 +231,7 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
 
 def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
     from pathlib import Path
+    from mccode_antlr.compiler.c import CBinaryTarget
     from mccode_antlr.reader import Reader
     from mccode_antlr.reader import LocalRegistry
     from os import X_OK, R_OK, access
@@ -261,6 +265,7 @@ def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
     # check if the filename is actually a compiled instrument already:
     if args.output_file is None and filename.exists() and access(filename, X_OK):
         binary = filename
+        target = CBinaryTarget(**target)
         name = filename.stem
     elif not filename.exists() or not access(filename, R_OK):
         raise RuntimeError(f'{filename} does not exist or is not readable')
-- 
2.43.0


From b2e8a39f8d48ee8cbdfe73abfbfe61c43815c072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 47/73] fix: a range lost its last value to rounding, or all if
 its step exceeds its span

len(MRange) and its iterator computed the number of values differently, and both
without regard to rounding errors.
---
 src/mccode_antlr/run/range.py | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index b56f36b..1d1b822 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -29,14 +29,7 @@ class MRange:
         return self.stop
 
     def __iter__(self):
-        def range_gen(start, stop, step):
-            v = start
-            i = 0
-            while (step > 0 and v + step <= stop) or (step < 0 and v + step >= stop):
-                v = i * step + start
-                i += 1
-                yield v
-        return range_gen(self.start, self.stop, self.step)
+        return (self[index] for index in range(len(self)))
 
     def __getitem__(self, index: int):
         if index < 0 or index >= len(self):
@@ -50,7 +43,9 @@ class MRange:
         return f'MStyleRange({self})'
 
     def __len__(self):
-        return int((self.stop - self.start) / self.step) + 1
+        from math import floor
+        # the tolerance keeps the last value if the number of steps is rounded down, as in (0.3 - 0.1) / 0.1
+        return floor((self.stop - self.start) / self.step + 1e-9) + 1
 
     @classmethod
     def from_str(cls, string):
-- 
2.43.0


From f65539905cf6c6d83bdedc2712e42f4a3859d792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:56 +0000
Subject: [PATCH 48/73] fix: linear scans did not accept single values, or took
 the characters of a text for values

A list of one value or a number raised an error or was iterated over differently
than its length, a Singular without limit has no length, and the caller's dictionary
was modified for grids. A parameter without values was silently dropped.
---
 src/mccode_antlr/run/range.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/run/range.py b/src/mccode_antlr/run/range.py
index 1d1b822..a5fc9ca 100644
--- a/src/mccode_antlr/run/range.py
+++ b/src/mccode_antlr/run/range.py
@@ -158,16 +158,16 @@ def parameters_to_scan(parameters: dict[str, Union[list, MRange, Singular]], gri
     :parameter parameters: A dictionary of ranged parameters.
     :parameter grid: Controls how the parameters are iterated; True implies a grid scan, False implies a linear scan.
     """
-    if grid:
-        for k, v in parameters.items():
-            if isinstance(v, Singular):
-                parameters[k] = Singular(v.value, 1)
-
     names = [x.lower() for x in parameters.keys()]
-    values = [x if hasattr(x, '__iter__') else [x] for x in parameters.values()]
+    values = [x if hasattr(x, '__iter__') and not isinstance(x, str) else [x] for x in parameters.values()]
+    # a Singular is one value; without its own limit it is repeated as often as the others demand
+    values = [[x.value] if isinstance(x, Singular) and (grid or x.maximum is None) else x for x in values]
     if not len(values):
         return 0, names, []
-    elif grid:
+    for name, v in zip(names, values):
+        if len(v) < 1:
+            raise ValueError(f'Parameter {name} has no values')
+    if grid:
         from itertools import product
         from math import prod
         # singular MRange objects *should* stop the grid along their axis:
@@ -182,7 +182,7 @@ def parameters_to_scan(parameters: dict[str, Union[list, MRange, Singular]], gri
                 par = 'parameters' if len(oth) > 1 else 'parameter'
                 have = 'have' if len(oth) > 1 else 'has'
                 raise ValueError(f'Parameter {names[i]} has {len(v)} values, but {par} {", ".join(oth)} {have} {n_max}')
-        return n_max, names, zip(*[v if len(v) > 1 else Singular(v[0] if isinstance(v, MRange) else v.value, n_max) for v in values])
+        return n_max, names, zip(*[v if len(v) > 1 else Singular(next(iter(v)), n_max) for v in values])
 
 
 def _MRange_or_Singular(s: str):
-- 
2.43.0


From b7b8f451fb9133b6048dc24892be67ff639a241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 49/73] fix: every point of a scan was executed with the text
 of the whole ranges

The values of the point are given to the program, for a scan of a single point too,
and run-time options given by their aliases are no longer ignored.
---
 src/mccode_antlr/run/runner.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index f512c33..987fe33 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -164,6 +164,8 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
     # n_zeros = len(str(n_pts))
 
     args = regular_mccode_runtime_dict(r_args)
+    # the directory of each point is decided here
+    directory = args.pop('dir', None) if directory is None else directory
 
     if directory is None:
         from datetime import datetime
@@ -177,14 +179,13 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
             # TODO Use the following line instead of the one after it when McCode is fixed to use zero-padded folder names
             # # runtime_arguments['dir'] = args["dir"].joinpath(str(number).zfill(n_zeros))
             this_directory = directory.joinpath(str(number))
-            pars = mccode_runtime_parameters(r_args, parameters)
+            pars = mccode_runtime_parameters(args, dict(zip(parameters, values)))
             r, d = mccode_run_compiled(binary, target, this_directory, pars, capture=capture, dry_run=dry_run)
             results.append((r, d))
         return results
     else:
         directory.parent.mkdir(parents=True, exist_ok=True)
-        print(parameters)
-        pars = mccode_runtime_parameters(args, parameters)
+        pars = mccode_runtime_parameters(args, dict(zip(parameters, next(iter(scan), ()))))
         return mccode_run_compiled(binary, target, directory, pars, capture=capture, dry_run=dry_run)
 
 
-- 
2.43.0


From 0e513ce92cf7d3d9fb02c59cfe04bfc937ce1c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 50/73] fix: directories, values and formats with spaces were
 split into several arguments

---
 src/mccode_antlr/compiler/c.py |  4 ++--
 src/mccode_antlr/run/runner.py | 13 +++++++++----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index dbc6622..83c563d 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -286,7 +286,7 @@ def compile_instrument(
     return compile_c_instrument(instrument, target, output, replace, dump_source, **kwargs)
 
 
-def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: str, capture=False, dry_run: bool = False):
+def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: str | list[str], capture=False, dry_run: bool = False):
     from subprocess import run, CalledProcessError
     from platform import system
     from mccode_antlr.config import config
@@ -320,7 +320,7 @@ def run_compiled_instrument(binary: Path, target: CBinaryTarget, options: str, c
         raise RuntimeError(f'Can not execute {binary} since it does not exist.')
 
     # In normal operation, the binary is provided with options
-    command.extend([str(binary), *options.split()])
+    command.extend([str(binary), *(options.split() if isinstance(options, str) else options)])
     # which we then execute:
     if dry_run:
         logger.info(f'Would execute {command}')
diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 987fe33..6745af0 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -49,6 +49,10 @@ def mccode_runtime_dict_to_args_list(args: dict) -> list[str]:
     return out
 
 
+def mccode_runtime_parameters_list(args: dict, params: dict) -> list[str]:
+    return mccode_runtime_dict_to_args_list(args) + [f'{k}={v}' for k, v in params.items()]
+
+
 def mccode_runtime_parameters(args: dict, params: dict) -> str:
     first = ' '.join(mccode_runtime_dict_to_args_list(args))
     second = ' '.join(f'{k}={v}' for k, v in params.items())
@@ -147,12 +151,13 @@ def mccode_compile(instr, directory, generator, target: dict | None = None, conf
     return binary, def_target
 
 
-def mccode_run_compiled(binary, target, directory: Path | str, parameters: str, capture: bool = True, dry_run: bool = False):
+def mccode_run_compiled(binary, target, directory: Path | str, parameters: str | list[str], capture: bool = True, dry_run: bool = False):
     from mccode_antlr.compiler.c import run_compiled_instrument
     from mccode_antlr.loader import read_mccode_dat
     from pathlib import Path
 
-    result = run_compiled_instrument(binary, target, f'--dir {directory} {parameters}', capture=capture, dry_run=dry_run)
+    options = ['--dir', str(directory), *(parameters.split() if isinstance(parameters, str) else parameters)]
+    result = run_compiled_instrument(binary, target, options, capture=capture, dry_run=dry_run)
     sim_files = list(Path(directory).glob('**/*.dat'))
     dats = {file.stem: read_mccode_dat(file) for file in sim_files}
     return result, dats
@@ -179,13 +184,13 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
             # TODO Use the following line instead of the one after it when McCode is fixed to use zero-padded folder names
             # # runtime_arguments['dir'] = args["dir"].joinpath(str(number).zfill(n_zeros))
             this_directory = directory.joinpath(str(number))
-            pars = mccode_runtime_parameters(args, dict(zip(parameters, values)))
+            pars = mccode_runtime_parameters_list(args, dict(zip(parameters, values)))
             r, d = mccode_run_compiled(binary, target, this_directory, pars, capture=capture, dry_run=dry_run)
             results.append((r, d))
         return results
     else:
         directory.parent.mkdir(parents=True, exist_ok=True)
-        pars = mccode_runtime_parameters(args, dict(zip(parameters, next(iter(scan), ()))))
+        pars = mccode_runtime_parameters_list(args, dict(zip(parameters, next(iter(scan), ()))))
         return mccode_run_compiled(binary, target, directory, pars, capture=capture, dry_run=dry_run)
 
 
-- 
2.43.0


From b667a03ee227898b89c1f016c73a7e6937fe2f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 51/73] fix: scans failed for an output directory given as
 text, as by the command line

---
 src/mccode_antlr/run/runner.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 6745af0..6934bbf 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -175,6 +175,7 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
     if directory is None:
         from datetime import datetime
         directory = Path(f'{name}{datetime.now().strftime("%Y%m%d_%H%M%S")}')
+    directory = Path(directory)
 
     # if there is only one point, we don't need to scan
     if n_pts > 1:
-- 
2.43.0


From 36694862785a0b5b5092b201e1b1ab75dba5b1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 52/73] fix: a run without readable output directory was a
 success without data

And a dry run returned the data of an earlier run, or created directories.
---
 src/mccode_antlr/run/runner.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 6934bbf..70d8383 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -154,11 +154,20 @@ def mccode_compile(instr, directory, generator, target: dict | None = None, conf
 def mccode_run_compiled(binary, target, directory: Path | str, parameters: str | list[str], capture: bool = True, dry_run: bool = False):
     from mccode_antlr.compiler.c import run_compiled_instrument
     from mccode_antlr.loader import read_mccode_dat
+    from os import walk
     from pathlib import Path
 
     options = ['--dir', str(directory), *(parameters.split() if isinstance(parameters, str) else parameters)]
     result = run_compiled_instrument(binary, target, options, capture=capture, dry_run=dry_run)
-    sim_files = list(Path(directory).glob('**/*.dat'))
+    if dry_run:
+        return result, {}
+    if not Path(directory).is_dir():
+        raise RuntimeError(f'Execution of {binary} did not produce the output directory {directory}')
+
+    def unreadable(error):
+        raise error
+
+    sim_files = [Path(at).joinpath(file) for at, _, files in walk(directory, onerror=unreadable) for file in files if file.endswith('.dat')]
     dats = {file.stem: read_mccode_dat(file) for file in sim_files}
     return result, dats
 
@@ -179,7 +188,8 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
 
     # if there is only one point, we don't need to scan
     if n_pts > 1:
-        directory.mkdir(parents=True, exist_ok=True)
+        if not dry_run:
+            directory.mkdir(parents=True, exist_ok=True)
         results = []
         for number, values in enumerate(scan):
             # TODO Use the following line instead of the one after it when McCode is fixed to use zero-padded folder names
@@ -190,7 +200,8 @@ def mccode_run_scan(name: str, binary, target, parameters, directory, grid: bool
             results.append((r, d))
         return results
     else:
-        directory.parent.mkdir(parents=True, exist_ok=True)
+        if not dry_run:
+            directory.parent.mkdir(parents=True, exist_ok=True)
         pars = mccode_runtime_parameters_list(args, dict(zip(parameters, next(iter(scan), ()))))
         return mccode_run_compiled(binary, target, directory, pars, capture=capture, dry_run=dry_run)
 
-- 
2.43.0


From 171b99704674cd2d71b9570e50dbfbac8be61b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 53/73] fix: --process-count N was given to mpirun as [N]

---
 src/mccode_antlr/run/runner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 70d8383..c0e3d67 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -108,7 +108,7 @@ def mccode_run_script_parser(prog: str):
        help='Do not run any simulations, just print the commands')
     aa('--parallel', action='store_true', default=False, help='Use MPI multi-process parallelism')
     aa('--gpu', action='store_true', default=False, help='Use GPU OpenACC parallelism')
-    aa('--process-count', nargs=1, type=int, default=0, help='MPI process count, 0 == System Default')
+    aa('--process-count', type=int, default=0, help='MPI process count, 0 == System Default')
 
     return parser
 
-- 
2.43.0


From fa4b8ecd8368ae1f67fab2be5995267303ce2cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:57 +0000
Subject: [PATCH 54/73] fix: mcstas_run and mcxtrace_run could not be called,
 mccode_run returned nothing

They passed their arguments in the wrong order, and had no means to give parameters.
---
 src/mccode_antlr/run/runner.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index c0e3d67..6355aa9 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -244,7 +244,7 @@ def mccode_run(instrument, generator, parameters, directory: str | Path, binary_
     )
     out_dir = directory.joinpath(f'{instrument.name}{datetime.now().strftime("%Y%m%d_%H%M%S")}')
 
-    mccode_run_scan(instrument.name, binary_path, target, parameters, out_dir, mesh, **runtime)
+    return mccode_run_scan(instrument.name, binary_path, target, parameters, out_dir, mesh, **runtime)
 
 
 def mccode_run_cmd(flavor: str, registry: Registry, generator: dict):
@@ -329,13 +329,11 @@ def mcxtrace_cmd():
     mccode_run_cmd('mcxtrace', MCXTRACE_REGISTRY, MCXTRACE_GENERATOR)
 
 
-def mcstas_run(instrument, directory):
-    from mccode_antlr.reader import MCSTAS_REGISTRY
+def mcstas_run(instrument, directory, parameters: dict | None = None, **kwargs):
     from mccode_antlr.translators.target import MCSTAS_GENERATOR
-    mccode_run(instrument, directory, MCSTAS_REGISTRY, MCSTAS_GENERATOR)
+    return mccode_run(instrument, MCSTAS_GENERATOR, parameters or {}, directory, **kwargs)
 
 
-def mcxtrace_run(instrument, directory):
-    from mccode_antlr.reader import MCXTRACE_REGISTRY
+def mcxtrace_run(instrument, directory, parameters: dict | None = None, **kwargs):
     from mccode_antlr.translators.target import MCXTRACE_GENERATOR
-    mccode_run(instrument,  directory, MCXTRACE_REGISTRY, MCXTRACE_GENERATOR)
+    return mccode_run(instrument, MCXTRACE_GENERATOR, parameters or {}, directory, **kwargs)
-- 
2.43.0


From df5a4a29943f9cb8c0e810ce57f63237154608f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:43 +0000
Subject: [PATCH 55/73] fix: a command line option without value took the next
 argument out of its place

'mcrun -t x 1' or 'mcrun file x -5' were read in another order than given.
---
 src/mccode_antlr/run/runner.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/run/runner.py b/src/mccode_antlr/run/runner.py
index 6355aa9..ee11594 100644
--- a/src/mccode_antlr/run/runner.py
+++ b/src/mccode_antlr/run/runner.py
@@ -59,16 +59,26 @@ def mccode_runtime_parameters(args: dict, params: dict) -> str:
     return f'{first} {second}'
 
 
-def sort_args(args: list[str]) -> list[str]:
-    """Take the list of arguments and sort them into the correct order for McCode run."""
+def sort_args(args: list[str], flags: tuple[str, ...] = ()) -> list[str]:
+    """Take the list of arguments and sort them into the correct order for McCode run.
+
+    :parameter flags: The options which do not take a value.
+    """
+    from re import match
+
+    def is_option(arg):
+        # a negative number is a parameter value
+        return arg.startswith('-') and not match(r'-\d*\.?\d+$', arg)
+
     # TODO this is a bit of a hack, but it works for now
     first, last = [], []
     k = 0
     while k < len(args):
-        if args[k].startswith('-'):
+        if is_option(args[k]):
             first.append(args[k])
             k += 1
-            if '=' not in first[-1] and k < len(args) and not args[k].startswith('-') and '=' not in args[k]:
+            takes_value = first[-1] not in flags and '=' not in first[-1]
+            if takes_value and k < len(args) and not is_option(args[k]) and (flags or '=' not in args[k]):
                 first.append(args[k])
                 k += 1
         else:
@@ -126,8 +136,10 @@ def print_version_information():
 def parse_mccode_run_script(prog: str):
     import sys
     from .range import parse_scan_parameters
-    sys.argv[1:] = sort_args(sys.argv[1:])
-    args = mccode_run_script_parser(prog).parse_args()
+    parser = mccode_run_script_parser(prog)
+    flags = tuple(name for action in parser._actions if action.nargs == 0 for name in action.option_strings)
+    sys.argv[1:] = sort_args(sys.argv[1:], flags)
+    args = parser.parse_args()
     parameters = parse_scan_parameters(args.parameters)
     return args, parameters
 
-- 
2.43.0


From 54763e9e8d21a10d2943e10db853205ead28673c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 56/73] fix: copies of an instance shared the expressions which
 translation modifies

---
 src/mccode_antlr/common/expression.py |  6 +++---
 src/mccode_antlr/instr/instance.py    | 18 +++++++++++++-----
 src/mccode_antlr/instr/jump.py        |  2 +-
 3 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index 5726035..a5c8a47 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -368,7 +368,7 @@ class TrinaryOp(Op):
         return any(any(x.depends_on(name) for x in y) for y in (self.first, self.second, self.third))
 
     def copy(self):
-        return TrinaryOp(self.op, self.first, self.second, self.third)
+        return TrinaryOp(self.op, *[[x.copy() for x in y] for y in (self.first, self.second, self.third)])
 
     def __contains__(self, value):
         # first, second, and third are lists, so we need to check each element to avoid using __eq__
@@ -522,7 +522,7 @@ class BinaryOp(Op):
         return any(any(x.depends_on(name) for x in y) for y in (self.left, self.right))
 
     def copy(self):
-        return BinaryOp(self.op, self.left.copy(), self.right.copy())
+        return BinaryOp(self.op, [x.copy() for x in self.left], [x.copy() for x in self.right])
 
     def __contains__(self, value):
         # left and right are lists, so we need to check each element to avoid using __eq__
@@ -624,7 +624,7 @@ class UnaryOp(Op):
         return any(x.depends_on(name) for x in self.value)
 
     def copy(self):
-        return UnaryOp(self.op, self.value.copy())
+        return UnaryOp(self.op, [x.copy() for x in self.value])
 
     def __contains__(self, value):
         # value is a list
diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 3f391f9..736c491 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -228,11 +228,19 @@ class Instance:
         return tuple(md.values())
 
     def copy(self):
-        return Instance(self.name, self.type, self.at_relative, self.rotate_relative,
-                        orientation=self.orientation, parameters=self.parameters,
-                        removable=self.removable, cpu=self.cpu, split=self.split, when=self.when,
-                        group=self.group, extend=self.extend, jump=tuple([jmp.copy() for jmp in self.jump]),
-                        metadata=self.metadata)
+        # Expressions and blocks are modified in place, e.g., by verify_parameters, and can not be shared
+        def relative(kind, values, reference):
+            return kind(*[x.copy() if isinstance(x, Expr) else x for x in values]), reference
+
+        return Instance(self.name, self.type, relative(Vector, *self.at_relative), relative(Angles, *self.rotate_relative),
+                        orientation=self.orientation,
+                        parameters=tuple([ComponentParameter(par.name, par.value.copy()) for par in self.parameters]),
+                        removable=self.removable, cpu=self.cpu,
+                        split=None if self.split is None else self.split.copy(),
+                        when=None if self.when is None else self.when.copy(),
+                        group=self.group, extend=tuple([ext.copy() for ext in self.extend]),
+                        jump=tuple([jmp.copy() for jmp in self.jump]),
+                        metadata=tuple([md.copy() for md in self.metadata]), mode=self.mode)
 
     def parameter_used(self, name: str):
         if any([name in par.value for par in self.parameters]):
diff --git a/src/mccode_antlr/instr/jump.py b/src/mccode_antlr/instr/jump.py
index d2d9f56..8ea1779 100644
--- a/src/mccode_antlr/instr/jump.py
+++ b/src/mccode_antlr/instr/jump.py
@@ -23,7 +23,7 @@ class Jump:
 
     def copy(self):
         """A Jump holds its position in one list of components, and can not be shared with a different instance"""
-        return Jump(self.target, self.relative_target, self.iterate, self.condition)
+        return Jump(self.target, self.relative_target, self.iterate, self.condition.copy())
 
     def __contains__(self, value):
         return value in self.condition
-- 
2.43.0


From d5b74bca5b4970546eb9d264802a001f95a9a67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 57/73] fix: copies of an instrument referred to instances and
 parameters of the original

---
 src/mccode_antlr/instr/instr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 2dac2f9..0a64dac 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -308,11 +308,16 @@ class Instr:
         """Return a copy of this instrument, optionally with only a subset of components"""
         from copy import deepcopy
         copy = Instr(self.name, self.source)
-        copy.parameters = tuple(x for x in self.parameters)
+        copy.parameters = tuple(x.copy() for x in self.parameters)
         copy.metadata = tuple(x.copy() for x in self.metadata)
         if last < 0:
             last += 1 + len(self.components)
         copy.components = tuple(x.copy() for x in self.components[first:last])
+        # relative instances within the copy are relative to the copied instances
+        copied = {id(x): y for x, y in zip(self.components[first:last], copy.components)}
+        for x in copy.components:
+            x.at_relative = x.at_relative[0], copied.get(id(x.at_relative[1]), x.at_relative[1])
+            x.rotate_relative = x.rotate_relative[0], copied.get(id(x.rotate_relative[1]), x.rotate_relative[1])
         copy.included = tuple(x for x in self.included)
         copy.user = tuple(x.copy() for x in self.user)
         copy.declare = tuple(x.copy() for x in self.declare)
-- 
2.43.0


From 6d1bc475d629a4cde50a0feed868751e7143976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 58/73] fix: the groups in a part of a split instrument had the
 positions of the whole

---
 src/mccode_antlr/instr/instr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 0a64dac..c53443d 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -198,6 +198,7 @@ class Instr:
         self.metadata += (m,)
 
     def determine_groups(self):
+        self.groups = {}
         for id, inst in enumerate(self.components):
             if inst.group:
                 if inst.group not in self.groups:
@@ -324,7 +325,8 @@ class Instr:
         copy.initialize = tuple(x.copy() for x in self.initialize)
         copy.save = tuple(x.copy() for x in self.save)
         copy.final = tuple(x.copy() for x in self.final)
-        copy.groups = {k: v.copy() for k, v in self.groups.items()}
+        # the members of the groups and their positions depend on which components are copied
+        copy.determine_groups()
         copy.flags = tuple(x for x in self.flags)
         copy.registries = tuple(x for x in self.registries)
         return copy
@@ -457,6 +459,8 @@ class Instr:
         second.make_instance(sc.name, input_component, sc.at_relative, sc.rotate_relative, parameters=input_parameters)
         # move the newly added component to the front of the list:
         second.components = (second.components[-1],) + second.components[:-1]
+        first.determine_groups()
+        second.determine_groups()
 
         return first, second
 
-- 
2.43.0


From dc28c4291f8ff0d0b4a8fce2826b85cf9717a281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 59/73] fix: make_instance used the group as removable and
 removable as CPU flag

---
 src/mccode_antlr/instr/instr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index c53443d..3538f09 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -396,7 +396,7 @@ class Instr:
             component = reader.get_component(component)
             self.flags += tuple(reader.c_flags)
         self.components += (Instance(name, component, at_relative, rotate_relative, orientation,
-                                     parameters, group, removable),)
+                                     parameters, group=group, removable=removable),)
 
     def mcpl_split(self,
                    after,
-- 
2.43.0


From 322c202ae0814628f8e5aba95bacb4e6c3bc8667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:18 +0000
Subject: [PATCH 60/73] fix: a JUMP out of (a part of) an instrument was
 translated

---
 src/mccode_antlr/translators/target.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 33ffc4a..1fd8371 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -238,7 +238,9 @@ class TargetVisitor:
                 jump.absolute_target = index + jump.relative_target
             elif jump.target in names:
                 jump.absolute_target = names.index(jump.target)
-            elif jump.absolute_target < 0:
+            else:
+                jump.absolute_target = -1
+            if not 0 <= jump.absolute_target < len(names):
                 raise RuntimeError(f'Unknown JUMP target {jump.target} in {self.source.components[index].name}')
 
     def enter_trace(self):
-- 
2.43.0


From 91ee19e256833319a5ef7254f1ac64d9069e1110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:28 +0000
Subject: [PATCH 61/73] fix: a translation modified the instrument and the
 component types it shares with others

---
 src/mccode_antlr/comp/comp.py          |  5 +++++
 src/mccode_antlr/compiler/c.py         |  2 +-
 src/mccode_antlr/instr/instr.py        |  7 ++++++-
 src/mccode_antlr/translators/target.py | 11 ++++++++++-
 4 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/comp/comp.py b/src/mccode_antlr/comp/comp.py
index 8bdb01d..4b1b6b2 100644
--- a/src/mccode_antlr/comp/comp.py
+++ b/src/mccode_antlr/comp/comp.py
@@ -36,6 +36,11 @@ class Comp:
     # def parameters(self):
     #     return self.define + self.setting
 
+    def copy(self):
+        from dataclasses import replace
+        blocks = ('share', 'user', 'declare', 'initialize', 'trace', 'save', 'final', 'display')
+        return replace(self, **{name: tuple(block.copy() for block in getattr(self, name)) for name in blocks})
+
     def has_parameter(self, name: str):
         return parameter_name_present(self.define, name) or parameter_name_present(self.setting, name)
 
diff --git a/src/mccode_antlr/compiler/c.py b/src/mccode_antlr/compiler/c.py
index 83c563d..cc0ca49 100644
--- a/src/mccode_antlr/compiler/c.py
+++ b/src/mccode_antlr/compiler/c.py
@@ -85,7 +85,7 @@ class CBinaryTarget:
 def instrument_source(instrument: Instr, generator: dict, config: dict, verbose: bool = None):
     if verbose is None:
         verbose = config.get('verbose', False)
-    # TargetVisitor to uses instrument.registries (and the CTargetVisitor *appends* its LIBC_REGISTRY if necessary)
+    # TargetVisitor to uses instrument.registries (and the CTargetVisitor uses its LIBC_REGISTRY if necessary)
     visitor = CTargetVisitor(instrument, generate=generator, config=config, verbose=verbose)
     # Does the conversion by 'visiting' the instrument, then returns the full string of the generated source code
     return visitor.contents()
diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 3538f09..5170587 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -219,7 +219,12 @@ class Instr:
 
     def _getpath(self, filename: str):
         from pathlib import Path
-        for registry in self.registries:
+        from ..reader.registry import LIBC_REGISTRY, ordered_registries
+        # the same registries, in the same order, are used to find the files of %include statements
+        registries = list(self.registries)
+        if not any(registry == LIBC_REGISTRY for registry in registries):
+            registries.append(LIBC_REGISTRY)
+        for registry in ordered_registries(registries):
             if registry.known(filename):
                 return registry.path(filename).absolute().resolve()
         return Path()
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index 1fd8371..b435dfa 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -13,12 +13,21 @@ CONFIG = dict(default_main=True, enable_trace=True, portable=True, include_runti
               embed_instrument_file=False,)
 
 
+def private_copy(instr: Instr) -> Instr:
+    """A translation modifies the instrument, its instances and the component types, which can be part of other instruments"""
+    copy = instr.copy()
+    types = {typ: typ.copy() for typ in copy.component_types()}
+    for instance in copy.components:
+        instance.type = types[instance.type]
+    return copy
+
+
 # Follow the logic of codegen.c(.in) from McCode-3, but make use of visitor semantics for possible alternate runtimes
 class TargetVisitor:
     def __init__(self, instr: Instr, generate: dict = None, config: dict = None, verbose=False):
         self.runtime = MCSTAS_GENERATOR if generate is None else generate
         self.config = CONFIG if config is None else config
-        self.source = instr
+        self.source = private_copy(instr)
         self.output = None
         self.verbose = verbose
         self.warnings = 0
-- 
2.43.0


From 0684b86af482db8d1a89c20871e539a4bbf7ceac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:40 +0000
Subject: [PATCH 62/73] fix: the sine of 180 degrees was -1

---
 src/mccode_antlr/instr/orientation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 1cf52fc..09c4483 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -351,7 +351,7 @@ def sin_value(v: Expr, degrees=True):
     pi = Expr.float(pi) if v.is_constant else Expr.id('PI')
     if (degrees and v.is_value(Expr.float(90))) or (not degrees and v.is_value(pi / Expr.float(2))):
         return Expr.float(1)
-    if (degrees and v.is_value(Expr.float(180))) or (not degrees and v.is_value(-pi / Expr.float(2))):
+    if (degrees and v.is_value(Expr.float(-90))) or (not degrees and v.is_value(-pi / Expr.float(2))):
         return Expr.float(-1)
     return unary_expr(sin_degree if degrees else sin, 'sin', v)
 
-- 
2.43.0


From 0072ad9f25c2b8410b789e19c35554bb28451bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:14 +0000
Subject: [PATCH 63/73] fix: an ABSOLUTE rotation was relative to the reference
 of the position in the orientation of an instance

---
 src/mccode_antlr/instr/instance.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 736c491..97242ae 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -101,12 +101,11 @@ class Instance:
             ar, rr = self.at_relative, self.rotate_relative
             if not isinstance(ar[0], Vector) or not isinstance(rr[0], Angles):
                 logger.warning(f'Expected {ar=} and {rr=} to be Vector and Angles respectively')
-            if rr[1] is None and ar[1] is not None:
-                logger.warning(f'Expected rotation reference to be specified when at reference is specified')
             at = ar[0] if isinstance(ar[0], Vector) else Vector(*ar[0])
-            an, ar = (ar[1].name, ar[1].orientation) if ar[1] else ("ABSOLUTE", None)
+            ar = ar[1].orientation if ar[1] else None
             rt = rr[0] if isinstance(rr[0], Angles) else Angles(*rr[0])
-            rn, rr = (rr[1].name, rr[1].orientation) if rr[1] else (an, ar)
+            # no reference is an ABSOLUTE rotation, whatever the position is relative to
+            rr = rr[1].orientation if rr[1] else None
             self.orientation = Orient.from_dependent_orientations(ar, at, rr, rt)
         # check if the defining component is marked noacc, in which case this _is_ cpu only
         if not self.type.acc:
-- 
2.43.0


From 6363adcd49d32be739330820c997db9a0831fbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:38 +0000
Subject: [PATCH 64/73] fix: the angles of combined rotations were wrong for a
 y rotation of 90 degrees, or more

---
 src/mccode_antlr/instr/orientation.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mccode_antlr/instr/orientation.py b/src/mccode_antlr/instr/orientation.py
index 09c4483..6adc215 100644
--- a/src/mccode_antlr/instr/orientation.py
+++ b/src/mccode_antlr/instr/orientation.py
@@ -418,12 +418,15 @@ def _rotation_angles_to_axes_coordinates(rotated: Angles, degrees=True):
 
 def axes_euler_angles(m: Rotation, degrees) -> Angles:
     """Return the angles vector which could have been used to produce this 'axes' rotation matrix"""
-    rxs = atan2_value(-m.zy, m.zz, degrees=degrees)
-    rys = atan2_value(m.zx, cos_from_sin_value(m.zx), degrees=degrees)
-    rzs = atan2_value(-m.yx, m.xx, degrees=degrees)
-    rx = rxs[0] if len(rxs) == 1 else rxs[0]
-    ry = rys[0] if len(rys) == 1 else rys[0]
-    rz = rzs[0] if len(rzs) == 1 else rzs[0]
+    from math import atan2, cos, sin, pi
+
+    # With the rotation around z undone, the rotations around y and x can be told apart even if y is +/- 90 degrees
+    rz = binary_expr(atan2, 'atan2', -m.yx, m.xx)
+    c, s = unary_expr(cos, 'cos', rz), unary_expr(sin, 'sin', rz)
+    ry = binary_expr(atan2, 'atan2', m.zx, c * m.xx - s * m.yx)
+    rx = binary_expr(atan2, 'atan2', s * m.xz + c * m.yz, s * m.xy + c * m.yy)
+    if degrees:
+        rx, ry, rz = [x * Expr.float(180 / pi) for x in (rx, ry, rz)]
     return Angles(rx, ry, rz)
 
 
-- 
2.43.0


From fe310fde3ed5806ca2a98c786884c139d2e61ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:39 +0000
Subject: [PATCH 65/73] fix: positions in the second part of a split instrument
 used angles in degrees as radian

---
 src/mccode_antlr/instr/instance.py | 24 +++++++++++++++++++++++-
 src/mccode_antlr/instr/instr.py    |  4 ++--
 2 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/mccode_antlr/instr/instance.py b/src/mccode_antlr/instr/instance.py
index 97242ae..3951cc6 100644
--- a/src/mccode_antlr/instr/instance.py
+++ b/src/mccode_antlr/instr/instance.py
@@ -4,7 +4,7 @@ from typing import TypeVar, Union
 from ..comp import Comp
 from ..common import Expr, Value, Mode
 from ..common import InstrumentParameter, ComponentParameter, MetaData, parameter_name_present, RawC, blocks_to_raw_c
-from .orientation import Orient, Vector, Angles
+from .orientation import Orient, Vector, Angles, axes_euler_angles, degree_to_radian
 from .jump import Jump
 
 InstanceReference = TypeVar('InstanceReference', bound='Instance')
@@ -241,6 +241,28 @@ class Instance:
                         jump=tuple([jmp.copy() for jmp in self.jump]),
                         metadata=tuple([md.copy() for md in self.metadata]), mode=self.mode)
 
+    def absolute(self) -> tuple[Vector, Angles]:
+        """The absolute position and angles of the instance, to be used in place of its relative ones
+
+        The trigonometric functions of the runtime take angles in radian, which values not known before then must be.
+        """
+        def orient(instance):
+            if instance is None:
+                return None
+            (at, at_ref), (rotate, rotate_ref) = instance.at_relative, instance.rotate_relative
+            rotate = Angles(*[x if x.has_value else degree_to_radian(x) for x in rotate])
+            return Orient.from_dependent_orientations(orient(at_ref), Vector(*at), orient(rotate_ref), rotate)
+
+        absolute = orient(self)
+        if self.rotate_relative[1] is None:
+            angles = self.rotate_relative[0]
+        elif self.orientation is not None and len(self.orientation.rotation_parts().stack()) < 2:
+            # the angles are known without any trigonometric function
+            angles = self.orientation.angles()
+        else:
+            angles = axes_euler_angles(absolute.rotation(), True)
+        return Vector(*[x.copy() for x in absolute.position()]), Angles(*[x.copy() for x in angles])
+
     def parameter_used(self, name: str):
         if any([name in par.value for par in self.parameters]):
             return True
diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 5170587..fb896dd 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -378,12 +378,12 @@ class Instr:
                 if second.has_component_named(at_rel.name):
                     instance.at_relative = instance.at_relative[0], second.get_component(at_rel.name)
                 else:
-                    instance.at_relative = instance.orientation.position(), None
+                    instance.at_relative = instance.absolute()[0], None
             if isinstance(rot_rel, Instance):
                 if second.has_component_named(rot_rel.name):
                     instance.rotate_relative = instance.rotate_relative[0], second.get_component(rot_rel.name)
                 else:
-                    instance.rotate_relative = instance.orientation.angles(), None
+                    instance.rotate_relative = instance.absolute()[1], None
         if second.check_instrument_parameters(remove=remove_unused_parameters) and not remove_unused_parameters:
             logger.info(f'Instrument {second.name} has unused instrument parameters')
 
-- 
2.43.0


From 8f731998f656575684b883e4686b404b7e5edabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:50 +0000
Subject: [PATCH 66/73] fix: the negative of a negative expression was written
 as a decrement

---
 src/mccode_antlr/common/expression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mccode_antlr/common/expression.py b/src/mccode_antlr/common/expression.py
index a5c8a47..7b762c2 100644
--- a/src/mccode_antlr/common/expression.py
+++ b/src/mccode_antlr/common/expression.py
@@ -559,7 +559,8 @@ class UnaryOp(Op):
         if '__not__' == self.op:
             return f'!{vstr}' if 'C' == self.style else f'not {vstr}'
         if any(x in self.op for x in '+-'):
-            return f'{self.op}{vstr}'
+            # -(-x) is not the same as --x
+            return f'{self.op}({vstr})' if vstr.startswith(self.op) else f'{self.op}{vstr}'
         return f'{self.op}({vstr})'
 
     def __str__(self):
-- 
2.43.0


From 06d6619fd1cc4a89c7b51497d265452db0059cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 67/73] fix: local registries chose directories or files
 without extension instead of a file, hid files when a directory could not be
 read, and listed directories as files

---
 src/mccode_antlr/reader/registry.py | 57 ++++++++++++++++-------------
 1 file changed, 31 insertions(+), 26 deletions(-)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 11a45c3..513725b 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -304,43 +304,48 @@ class LocalRegistry(Registry):
         ]) + ')'
         print(wrapper.line('LocalRegistry', [contents], ''), file=output)
 
-    def _filetype_iterator(self, filetype: str):
-        return self.root.glob(f'**/*.{filetype}')
+    def _directories(self):
+        """The root directory and all directories below it; raises if any can not be listed, if it is there and may be"""
+        from os import walk
 
-    def _file_iterator(self, name: str):
-        return self.root.glob(f'**/{name}')
+        def listing_failed(error: OSError):
+            if not isinstance(error, (FileNotFoundError, NotADirectoryError, PermissionError)):
+                raise error
 
-    def _exact_file_iterator(self, name: str):
-        return self.root.glob(name)
+        for directory, _, files in walk(self.root, onerror=listing_failed):
+            yield Path(directory), files
+
+    def _exact_match(self, name: str, ext: str = None) -> list[Path]:
+        """The path below the root directory, if it exists; something with an extension must be a file"""
+        path = self.root.joinpath(name)
+        return [path] if not Path(name).is_absolute() and (path.exists() if ext is None else path.is_file()) else []
+
+    def _matches(self, name: str, ext: str = None) -> list[Path]:
+        """All paths at any level below the root directory, the last part(s) of which are the name"""
+        if Path(name).is_absolute():
+            return []
+        paths = [directory.joinpath(name) for directory, _ in self._directories()]
+        return [path for path in paths if (path.exists() if ext is None else path.is_file())]
 
     def known(self, name: str, ext: str = None, strict: bool = False):
         compare = _name_plus_suffix(name, ext)
-        return len(list(self._file_iterator(compare))) > 0
+        return len(self._matches(compare, ext)) > 0
 
     def unique(self, name: str):
-        return len(list(self._file_iterator(name))) == 1
+        return len(self._matches(name)) == 1
 
     def fullname(self, name: str, ext: str = None, exact: bool = False):
         compare = _name_plus_suffix(name, ext)
         # Complete match
-        is_compare = list(self._exact_file_iterator(compare))
-        if len(is_compare) == 1:
-            return is_compare[0]
+        matches = self._exact_match(compare, ext)
+        if len(matches) == 0 and not exact:
+            matches = self._matches(compare, ext)
         # Complete match if name happens to be missing the extension
-        is_name = list(self._exact_file_iterator(name))
-        if len(is_name) == 1:
-            return is_name[0]
-        if not exact:
-            from loguru import logger
-            ends_with_compare = list(self._file_iterator(compare))
-            if len(ends_with_compare) == 1:
-                return ends_with_compare[0]
-            # Complete match if name happens to be missing the extension
-            ends_with_name = list(self._file_iterator(name))
-            if len(ends_with_name) == 1:
-                return ends_with_name[0]
-        # Or matching *any* file that contains name
-        matches = list(self._file_iterator(name))
+        if len(matches) == 0:
+            matches = self._exact_match(name, ext)
+        # Or matching *any* file with the name
+        if len(matches) == 0:
+            matches = self._matches(name, ext)
         if len(matches) == 0:
             raise RuntimeError(f'No match for {compare} or {name} under {self.root}')
         if len(matches) != 1:
@@ -354,7 +359,7 @@ class LocalRegistry(Registry):
         return self.root.joinpath(self.fullname(name, ext, exact))
 
     def filenames(self) -> list[str]:
-        return [str(x) for x in self.root.glob('**')]
+        return [str(directory.joinpath(file)) for directory, files in self._directories() for file in files]
 
     def __eq__(self, other):
         if not isinstance(other, Registry):
-- 
2.43.0


From 5d516185d64ef8968d19293ec5f2717125449ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 68/73] fix: failed loads of components or instruments left
 flags, components, registries and instances behind

---
 src/mccode_antlr/assembler/assembler.py |  9 +++++
 src/mccode_antlr/reader/reader.py       | 53 +++++++++++++++----------
 2 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/src/mccode_antlr/assembler/assembler.py b/src/mccode_antlr/assembler/assembler.py
index af2b993..7de17ac 100644
--- a/src/mccode_antlr/assembler/assembler.py
+++ b/src/mccode_antlr/assembler/assembler.py
@@ -74,6 +74,15 @@ class Assembler:
         ----
         See `Assembler._handle_at` and `Assembler._handle_rotate` for details on the at and rotate arguments.
         """
+        components, flags = self.instrument.components, self.instrument.flags
+        try:
+            with self.reader.all_or_nothing():
+                return self._component(name, type_name, at, rotate, parameters, **kwargs)
+        except BaseException:
+            self.instrument.components, self.instrument.flags = components, flags
+            raise
+
+    def _component(self, name: str, type_name: str, at, rotate, parameters, **kwargs):
         comp_type = self.reader.get_component(type_name)
         if type_name != comp_type.name:
             raise RuntimeError(f"Component resolution failed for {type_name}, found {comp_type.name} instead")
diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index d561e1b..3b6fddb 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -1,4 +1,5 @@
 from __future__ import annotations
+from contextlib import contextmanager
 from pathlib import Path
 from loguru import logger
 from dataclasses import dataclass, field
@@ -54,6 +55,16 @@ class Reader:
     def append_registry(self, reg: Registry):
         self.registries.append(reg)
 
+    @contextmanager
+    def all_or_nothing(self):
+        """If what is done within this context fails, the reader is as if it had not been attempted"""
+        registries, components, c_flags = list(self.registries), dict(self.components), list(self.c_flags)
+        try:
+            yield
+        except BaseException:
+            self.registries[:], self.components, self.c_flags = registries, components, c_flags
+            raise
+
     def handle_search_keyword(self, spec: str):
         if not any(registries_match(reg, spec) for reg in self.registries):
             reg = registry_from_specification(spec)
@@ -123,17 +134,18 @@ class Reader:
         error_listener = make_reader_error_listener(McComp_ErrorListener, 'Component', name, source)
         tree = McComp_parse(stream, 'prog', error_listener)
 
-        visitor = CompVisitor(self, filename, instance_name=current_instance_name)  # The visitor needs to be able to call *this* method
-        res = visitor.visitProg(tree)
-        if not isinstance(res, Comp):
-            raise RuntimeError(f'Parsing component file {filename} did not produce a component object!')
-        if res.category is None:
-            # guess the component category from the registered filename (not fully resolved path)
-            fullname = self.fullname(name, ext='.comp', strict=True)
-            fullname = fullname if isinstance(fullname, Path) else Path(fullname)
-            # if fullname is an absolute path, it comes from a local repository -- so we don't know what to do
-            res.category = 'UNKNOWN' if fullname.is_absolute() else fullname.parts[0]
-        self.components[name] = res
+        with self.all_or_nothing():
+            visitor = CompVisitor(self, filename, instance_name=current_instance_name)  # The visitor needs to be able to call *this* method
+            res = visitor.visitProg(tree)
+            if not isinstance(res, Comp):
+                raise RuntimeError(f'Parsing component file {filename} did not produce a component object!')
+            if res.category is None:
+                # guess the component category from the registered filename (not fully resolved path)
+                fullname = self.fullname(name, ext='.comp', strict=True)
+                fullname = fullname if isinstance(fullname, Path) else Path(fullname)
+                # if fullname is an absolute path, it comes from a local repository -- so we don't know what to do
+                res.category = 'UNKNOWN' if fullname.is_absolute() else fullname.parts[0]
+            self.components[name] = res
 
     def get_component(self, name: str, current_instance_name=None):
         if name not in self.components:
@@ -165,12 +177,13 @@ class Reader:
         )
         tree = McInstr_parse(stream, 'prog', error_listener)
 
-        visitor = InstrVisitor(self, filename, destination=destination, mode=mode)
-        res = visitor.visitProg(tree)
-        if not isinstance(res, Instr):
-            raise RuntimeError(f'Parsing instrument file {filename} did not produce an Instr object')
-        res.source = filename
-        # in addition to the flags of the instrument itself, which its visitor has already stored
-        res.flags += tuple(self.c_flags)
-        res.registries = tuple(self.registries)
-        return res
+        with self.all_or_nothing():
+            visitor = InstrVisitor(self, filename, destination=destination, mode=mode)
+            res = visitor.visitProg(tree)
+            if not isinstance(res, Instr):
+                raise RuntimeError(f'Parsing instrument file {filename} did not produce an Instr object')
+            res.source = filename
+            # in addition to the flags of the instrument itself, which its visitor has already stored
+            res.flags += tuple(self.c_flags)
+            res.registries = tuple(self.registries)
+            return res
-- 
2.43.0


From f80a2ac3798205294d7dcfe29c993730043a1932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:54 +0000
Subject: [PATCH 69/73] fix: searching the same directory again added the same
 registry again

---
 src/mccode_antlr/reader/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index 3b6fddb..f3efe42 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -66,6 +66,8 @@ class Reader:
             raise
 
     def handle_search_keyword(self, spec: str):
+        # the specification may be a string literal
+        spec = spec[1:-1] if len(spec) > 1 and spec.startswith('"') and spec.endswith('"') else spec
         if not any(registries_match(reg, spec) for reg in self.registries):
             reg = registry_from_specification(spec)
             if reg is not None:
-- 
2.43.0


From 5b4ac3d1f46a523542422aabd02f4bf452a55554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 70/73] fix: a location which is no directory was a TypeError
 if it is a URL alone

---
 src/mccode_antlr/reader/registry.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 513725b..a13ce16 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -469,6 +469,9 @@ def registry_from_specification(spec: str):
     if not simple_url_validator(p2, file_ok=True):
         return None
 
+    if p3 is None:
+        return None
+
     if Path(p3).exists() and Path(p3).is_file():
         return ModuleRemoteRegistry(p1, p2, Path(p3).resolve().as_posix())
 
-- 
2.43.0


From 3a734139b21e9ba3d4ded3b870244f5f012dbd44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:17 +0000
Subject: [PATCH 71/73] fix: SHELL and SEARCH SHELL did not run their command,
 but its first word in quotes, and components ignored SHELL

The list of words given with shell=True ran only the first one, which still had the opening quote of the literal. The output
of commands is used as it is: empty lines are no locations, and output that is not text is an error that names the command.
---
 src/mccode_antlr/common/utilities.py | 15 +++++++++++++++
 src/mccode_antlr/comp/visitor.py     |  6 +++++-
 src/mccode_antlr/instr/instr.py      |  9 ++-------
 src/mccode_antlr/instr/visitor.py    | 14 ++++++--------
 4 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/mccode_antlr/common/utilities.py b/src/mccode_antlr/common/utilities.py
index 8ebe4fb..a0c86c4 100644
--- a/src/mccode_antlr/common/utilities.py
+++ b/src/mccode_antlr/common/utilities.py
@@ -2,3 +2,18 @@ def escape_str_for_c(s: str):
     if s is None:
         return ''
     return s.encode('unicode-escape').decode('utf-8').replace('"', r'\"')
+
+
+def command_output(command: str) -> str:
+    """Run a command in a shell, exactly as it is written, and return all that it writes to its standard output"""
+    from subprocess import run, CalledProcessError
+    try:
+        return run(command, check=True, shell=True, capture_output=True).stdout.decode()
+    except (CalledProcessError, UnicodeDecodeError) as error:
+        raise RuntimeError(f"Calling {command} resulted in error {error}")
+
+
+def run_command(command: str):
+    """Run a command in a shell, exactly as it is written"""
+    from subprocess import run
+    run(command, check=True, shell=True)
diff --git a/src/mccode_antlr/comp/visitor.py b/src/mccode_antlr/comp/visitor.py
index 1eb543a..c505db2 100644
--- a/src/mccode_antlr/comp/visitor.py
+++ b/src/mccode_antlr/comp/visitor.py
@@ -133,10 +133,14 @@ class CompVisitor(McCompVisitor):
             value = Expr(Value(default, data_type=DataType.int, shape_type=ShapeType.vector))
         return ComponentParameter(name=name, value=value)
 
+    def visitShell(self, ctx: Parser.ShellContext):
+        from ..common.utilities import run_command
+        run_command(str(ctx.StringLiteral())[1:-1])
+
     def visitDependency(self, ctx: Parser.DependencyContext):
         if ctx.StringLiteral() is not None:
             # the flags are the literal string without its quotes:
-            self.parent.add_c_flags(str(ctx.StringLiteral()).strip('"'))
+            self.parent.add_c_flags(str(ctx.StringLiteral())[1:-1])
 
     def visitDeclareBlock(self, ctx: Parser.DeclareBlockContext):
         self.state.DECLARE(self.visit(ctx.unparsed_block()))
diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index fb896dd..852256a 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -238,13 +238,8 @@ class Instr:
             return self._getpath(chars).as_posix()
 
         def eval_cmd(chars):
-            from subprocess import run, CalledProcessError
-            try:
-                proc = run(chars, check=True, shell=True, capture_output=True, text=True)
-                output = proc.stdout
-            except CalledProcessError as error:
-                raise RuntimeError(f"Calling {chars} resulted in error {error}")
-            output = [line.strip() for line in output.splitlines() if line.strip()]
+            from ..common.utilities import command_output
+            output = [line.strip() for line in command_output(chars).splitlines() if line.strip()]
             if len(output) > 1:
                 raise RuntimeError(f"Calling {chars} produced more than one line of output")
             return output[0] if output else ''
diff --git a/src/mccode_antlr/instr/visitor.py b/src/mccode_antlr/instr/visitor.py
index 01323a5..fea47ac 100644
--- a/src/mccode_antlr/instr/visitor.py
+++ b/src/mccode_antlr/instr/visitor.py
@@ -348,19 +348,17 @@ class InstrVisitor(McInstrVisitor):
         return self.filename, line_number,  str(ctx.UnparsedBlock())[2:-2]
 
     def visitShell(self, ctx: McInstrParser.ShellContext):
-        from subprocess import run
-        args = str(ctx.StringLiteral()).split(' ')
-        run(args, shell=True, check=True)
+        from ..common.utilities import run_command
+        run_command(str(ctx.StringLiteral())[1:-1])
 
     def visitSearchPath(self, ctx: McInstrParser.SearchPathContext):
         self.parent.handle_search_keyword(str(ctx.StringLiteral()))
 
     def visitSearchShell(self, ctx: McInstrParser.SearchShellContext):
-        from subprocess import run
-        args = str(ctx.StringLiteral()).split()
-        res = run(args, shell=True, capture_output=True, check=True)
-        for specs in res.stdout.decode().split('\n'):
-            self.parent.handle_search_keyword(specs)
+        from ..common.utilities import command_output
+        for specs in command_output(str(ctx.StringLiteral())[1:-1]).split('\n'):
+            if specs.strip():
+                self.parent.handle_search_keyword(specs.strip())
 
     # TODO Make this and the identical list of visitors in comp/visitor.py a single definition ... somehow
     # FIXME There *are* no statements in McCode, so all identifiers always produce un-parsable values.
-- 
2.43.0


From e570869e76fc0509a974ff18932424f10164f416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 72/73] fix: naming a remote search location again does not add
 it again, nor is it mistaken for a directory

---
 src/mccode_antlr/reader/reader.py   |  2 +-
 src/mccode_antlr/reader/registry.py | 25 ++++++++++++++++++-------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index f3efe42..811340d 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -67,7 +67,7 @@ class Reader:
 
     def handle_search_keyword(self, spec: str):
         # the specification may be a string literal
-        spec = spec[1:-1] if len(spec) > 1 and spec.startswith('"') and spec.endswith('"') else spec
+        spec = spec[1:-1] if len(spec) > 1 and spec.startswith('"') and spec.endswith('"') and '"' not in spec[1:-1] else spec
         if not any(registries_match(reg, spec) for reg in self.registries):
             reg = registry_from_specification(spec)
             if reg is not None:
diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index a13ce16..2911e07 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -417,16 +417,27 @@ def ordered_registries(registries: list[Registry]):
     return sorted(registries, key=lambda x: x.priority, reverse=True)
 
 
+def _specification_parts(spec: str) -> list[str]:
+    """The parts of a specification; each may be a string literal"""
+    return [p[1:-1] if len(p) > 1 and p.startswith('"') and p.endswith('"') else p for p in spec.split()]
+
+
 def registries_match(registry: Registry, spec):
+    """Does the registry already provide the location of the specification, independent of their names?"""
     if isinstance(spec, Registry):
         return registry == spec
-    parts = spec.split()
-    path = Path(parts[1] if len(parts) == 2 else parts[0])
-    if path.exists() and registry.root == path.resolve():
-        return True
-    url = parts[1] if len(parts) >= 2 else parts[0]
-    if registry.pooch is not None and registry.pooch.base_url == url:
-        return True
+    parts = _specification_parts(spec)
+    if len(parts) == 0:
+        return False
+    location = parts[min(len(parts), 2) - 1]
+    path = Path(location)
+    if path.is_dir():
+        return registry.root is not None and Path(registry.root) == path.resolve()
+    if isinstance(registry, GitHubRegistry):
+        return len(parts) > 3 and [registry.url, registry.version, registry.filename] == parts[1:4]
+    if isinstance(registry, ModuleRemoteRegistry) and len(parts) > 2:
+        file = Path(parts[2])
+        return registry.url.rstrip('/') == location.rstrip('/') and file.is_file() and Path(registry.filename) == file.resolve()
     return False
 
 
-- 
2.43.0


From 910b5bb8b46579651566742ba45dfe251c39dd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 73/73] fix: a file with exactly the requested name is
 preferred to a similarly named one of another registry

---
 src/mccode_antlr/instr/instr.py        |  8 +++-----
 src/mccode_antlr/reader/reader.py      | 20 ++++++++++----------
 src/mccode_antlr/reader/registry.py    |  9 +++++++++
 src/mccode_antlr/translators/target.py |  7 ++++---
 4 files changed, 26 insertions(+), 18 deletions(-)

diff --git a/src/mccode_antlr/instr/instr.py b/src/mccode_antlr/instr/instr.py
index 852256a..0272d69 100644
--- a/src/mccode_antlr/instr/instr.py
+++ b/src/mccode_antlr/instr/instr.py
@@ -219,15 +219,13 @@ class Instr:
 
     def _getpath(self, filename: str):
         from pathlib import Path
-        from ..reader.registry import LIBC_REGISTRY, ordered_registries
+        from ..reader.registry import LIBC_REGISTRY, ordered_registries, registry_knowing
         # the same registries, in the same order, are used to find the files of %include statements
         registries = list(self.registries)
         if not any(registry == LIBC_REGISTRY for registry in registries):
             registries.append(LIBC_REGISTRY)
-        for registry in ordered_registries(registries):
-            if registry.known(filename):
-                return registry.path(filename).absolute().resolve()
-        return Path()
+        registry = registry_knowing(ordered_registries(registries), filename)
+        return Path() if registry is None else registry.path(filename).absolute().resolve()
 
     def _replace_env_getpath_cmd(self, flags: str):
         """Replace CMD, ENV, and GETPATH directives from a flag string"""
diff --git a/src/mccode_antlr/reader/reader.py b/src/mccode_antlr/reader/reader.py
index 811340d..9546f43 100644
--- a/src/mccode_antlr/reader/reader.py
+++ b/src/mccode_antlr/reader/reader.py
@@ -4,7 +4,7 @@ from pathlib import Path
 from loguru import logger
 from dataclasses import dataclass, field
 
-from .registry import Registry, MCSTAS_REGISTRY, registries_match, registry_from_specification
+from .registry import Registry, MCSTAS_REGISTRY, registries_match, registry_from_specification, registry_knowing
 from ..comp import Comp
 from ..common import Mode
 
@@ -80,9 +80,9 @@ class Reader:
 
     def locate(self, name: str, which: str = None, ext: str = None, strict: bool = False):
         registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        for reg in registries:
-            if reg.known(name, ext, strict=strict):
-                return reg.path(name, ext)
+        reg = registry_knowing(registries, name, ext, strict=strict)
+        if reg is not None:
+            return reg.path(name, ext)
         names = [reg.name for reg in registries]
         msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(names)
         raise RuntimeError(f'{name} not found in {msg}')
@@ -90,9 +90,9 @@ class Reader:
     def contents(self, name: str, which: str = None, ext: str = None, strict: bool = False):
         registries = self.registries if which is None else [x for x in self.registries
                                                             if x.name in which]
-        for reg in registries:
-            if reg.known(name, ext, strict=strict):
-                return reg.contents(name, ext)
+        reg = registry_knowing(registries, name, ext, strict=strict)
+        if reg is not None:
+            return reg.contents(name, ext)
         names = [reg.name for reg in registries]
         msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(
             names)
@@ -100,9 +100,9 @@ class Reader:
 
     def fullname(self, name: str, which: str = None, ext: str=None, strict: bool = False):
         registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        for reg in registries:
-            if reg.known(name, ext, strict=strict):
-                return reg.fullname(name, ext)
+        reg = registry_knowing(registries, name, ext, strict=strict)
+        if reg is not None:
+            return reg.fullname(name, ext)
         names = [reg.name for reg in registries]
         msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(names)
         raise RuntimeError(f'{name} not found in {msg}')
diff --git a/src/mccode_antlr/reader/registry.py b/src/mccode_antlr/reader/registry.py
index 2911e07..eb6e064 100644
--- a/src/mccode_antlr/reader/registry.py
+++ b/src/mccode_antlr/reader/registry.py
@@ -417,6 +417,15 @@ def ordered_registries(registries: list[Registry]):
     return sorted(registries, key=lambda x: x.priority, reverse=True)
 
 
+def registry_knowing(registries: list[Registry], name: str, ext: str | None = None, strict: bool = False):
+    """The first registry which has the file; one with only a similarly named file is less preferred, if allowed at all"""
+    for exactly in (True,) if strict else (True, False):
+        for registry in registries:
+            if registry.known(name, ext, strict=exactly):
+                return registry
+    return None
+
+
 def _specification_parts(spec: str) -> list[str]:
     """The parts of a specification; each may be a string literal"""
     return [p[1:-1] if len(p) > 1 and p.startswith('"') and p.endswith('"') else p for p in spec.split()]
diff --git a/src/mccode_antlr/translators/target.py b/src/mccode_antlr/translators/target.py
index b435dfa..7a8ea76 100644
--- a/src/mccode_antlr/translators/target.py
+++ b/src/mccode_antlr/translators/target.py
@@ -70,10 +70,11 @@ class TargetVisitor:
         return any([reg.known(name) for reg in registries])
 
     def locate(self, name: str, which: str = None):
+        from ..reader.registry import registry_knowing
         registries = self.registries if which is None else [x for x in self.registries if x.name in which]
-        for reg in registries:
-            if reg.known(name):
-                return reg.path(name)
+        reg = registry_knowing(registries, name)
+        if reg is not None:
+            return reg.path(name)
         names = [reg.name for reg in registries]
         msg = "registry " + names[0] if len(names) == 1 else 'registries: ' + ','.join(names)
         raise RuntimeError(f'{name} not found in {msg}')
-- 
2.43.0

