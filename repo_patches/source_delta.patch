From 6571aabf976b14c7ac2ccb9aad014e78f38806bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 01/40] fix: read config from root-level, where the writer
 stores it

The writer moved the config-attribute to the root-level (v2024.5.1), but the
reader still only looked into the data-group and returned an empty config.
---
 shepherd_core/shepherd_core/reader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 29bff8c..b5b81e6 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -255,6 +255,9 @@ class Reader:
         return ""
 
     def get_config(self) -> Dict:
+        if "config" in self.h5file.attrs:
+            return yaml.safe_load(self.h5file.attrs["config"])
+        # legacy-location, files before v2024.5.1
         if "config" in self.h5file["data"].attrs:
             return yaml.safe_load(self.h5file["data"].attrs["config"])
         return {}
-- 
2.43.0


From 06c5b674f3446da62af37446956c9748b8101605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:31 +0000
Subject: [PATCH 02/40] fix: csv-export adds no offset to datasets without
 calibration

A missing offset-attribute defaulted to 1.0 and shifted every exported value by one.
---
 shepherd_data/shepherd_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 16e75e6..1e0efb9 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -78,7 +78,7 @@ class Reader(CoreReader):
                 key: h5_group[key].attrs.get("gain", 1.0) for key in datasets[1:]
             }
             offsets: Dict[str, float] = {
-                key: h5_group[key].attrs.get("offset", 1.0) for key in datasets[1:]
+                key: h5_group[key].attrs.get("offset", 0.0) for key in datasets[1:]
             }
             for idx, time_ns in enumerate(h5_group["time"][:]):
                 timestamp = datetime.fromtimestamp(time_ns * ts_gain, tz=local_tz())
-- 
2.43.0


From a95ab84f734377881e6fe7edb5a1e57f5aef01e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 03/40] fix: keep sub-second part of durations when storing
 models to yaml

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 5 ++++-
 shepherd_core/shepherd_core/writer.py                    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 6745ea3..0aeb637 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -32,7 +32,10 @@ def path2str(
 
 def time2int(dumper: Dumper, data: timedelta) -> ScalarNode:
     """Add a yaml-representation for a specific datatype."""
-    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(data.total_seconds())))
+    seconds = data.total_seconds()
+    if not seconds.is_integer():
+        return dumper.represent_float(seconds)
+    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(seconds)))
 
 
 def generic2str(dumper: Dumper, data: Any) -> ScalarNode:
diff --git a/shepherd_core/shepherd_core/writer.py b/shepherd_core/shepherd_core/writer.py
index 7f36874..9152020 100644
--- a/shepherd_core/shepherd_core/writer.py
+++ b/shepherd_core/shepherd_core/writer.py
@@ -42,7 +42,10 @@ def path2str(
 
 def time2int(dumper: Dumper, data: timedelta) -> ScalarNode:
     """Add a yaml-representation for a specific datatype."""
-    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(data.total_seconds())))
+    seconds = data.total_seconds()
+    if not seconds.is_integer():
+        return dumper.represent_float(seconds)
+    return dumper.represent_scalar("tag:yaml.org,2002:int", str(int(seconds)))
 
 
 yaml.add_representer(pathlib.PosixPath, path2str, SafeDumper)
-- 
2.43.0


From cd11666cb1fbf3d49c3036fbe177d150874217f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:47 +0000
Subject: [PATCH 04/40] fix: allow storing models containing IPv6-addresses and
 urls to yaml

---
 shepherd_core/shepherd_core/data_models/base/shepherd.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/base/shepherd.py b/shepherd_core/shepherd_core/data_models/base/shepherd.py
index 0aeb637..c093ee2 100644
--- a/shepherd_core/shepherd_core/data_models/base/shepherd.py
+++ b/shepherd_core/shepherd_core/data_models/base/shepherd.py
@@ -4,6 +4,7 @@ import hashlib
 import pathlib
 from datetime import timedelta
 from ipaddress import IPv4Address
+from ipaddress import IPv6Address
 from pathlib import Path
 from typing import Any
 from typing import Generator
@@ -14,6 +15,7 @@ from uuid import UUID
 import yaml
 from pydantic import BaseModel
 from pydantic import ConfigDict
+from pydantic import HttpUrl
 from typing_extensions import Self
 from yaml import Dumper
 from yaml import SafeDumper
@@ -48,6 +50,8 @@ yaml.add_representer(pathlib.WindowsPath, path2str, SafeDumper)
 yaml.add_representer(pathlib.Path, path2str, SafeDumper)
 yaml.add_representer(timedelta, time2int, SafeDumper)
 yaml.add_representer(IPv4Address, generic2str, SafeDumper)
+yaml.add_representer(IPv6Address, generic2str, SafeDumper)
+yaml.add_representer(HttpUrl, generic2str, SafeDumper)
 yaml.add_representer(UUID, generic2str, SafeDumper)
 
 
-- 
2.43.0


From 9f48c8091e6750d3c2da8283dd7b59bd057ca0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 05/40] fix: compare capes and targets of a testbed by ID, they
 may differ in other fields

---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index a955c99..6418a67 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -67,11 +67,11 @@ class Testbed(ShpModel):
             ips.append(_obs.ip)
             macs.append(_obs.mac)
             if _obs.cape is not None:
-                capes.append(_obs.cape)
+                capes.append(_obs.cape.id)
             if _obs.target_a is not None:
-                targets.append(_obs.target_a)
+                targets.append(_obs.target_a.id)
             if _obs.target_b is not None:
-                targets.append(_obs.target_b)
+                targets.append(_obs.target_b.id)
             eth_ports.append(_obs.eth_port)
         if len(observers) > len(set(observers)):
             raise ValueError("Observers used more than once in Testbed")
-- 
2.43.0


From 6ce1d1c0cfafde0e255d9dcd372d0671876b7c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 06/40] fix: skip observers without cape when searching for a
 target

---
 shepherd_core/shepherd_core/data_models/testbed/testbed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/testbed.py b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
index 6418a67..f1f75c9 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/testbed.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/testbed.py
@@ -93,7 +93,7 @@ class Testbed(ShpModel):
 
     def get_observer(self, target_id: int) -> Observer:
         for _observer in self.observers:
-            if not _observer.active or not _observer.cape.active:
+            if not _observer.active or _observer.cape is None or not _observer.cape.active:
                 # skip decommissioned setups
                 continue
             if _observer.has_target(target_id):
-- 
2.43.0


From b3a56bbba114fa64b70b0dea8e6c62334af41903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 07/40] fix: detect collisions of custom IDs with the IDs
 targets use without one

---
 .../shepherd_core/data_models/experiment/experiment.py       | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/experiment/experiment.py b/shepherd_core/shepherd_core/data_models/experiment/experiment.py
index fcc6493..d1c4e39 100644
--- a/shepherd_core/shepherd_core/data_models/experiment/experiment.py
+++ b/shepherd_core/shepherd_core/data_models/experiment/experiment.py
@@ -73,14 +73,15 @@ class Experiment(ShpModel, title="Config of an Experiment"):
         target_ids = []
         custom_ids = []
         for _config in configs:
+            testbed_ids = []
             for _id in _config.target_IDs:
                 target_ids.append(_id)
-                Target(id=_id)
+                testbed_ids.append(Target(id=_id).testbed_id)
                 # ⤷ this can raise exception for non-existing targets
             if _config.custom_IDs is not None:
                 custom_ids = custom_ids + _config.custom_IDs[: len(_config.target_IDs)]
             else:
-                custom_ids = custom_ids + _config.target_IDs
+                custom_ids = custom_ids + testbed_ids
         if len(target_ids) > len(set(target_ids)):
             raise ValueError("Target-ID used more than once in Experiment!")
         if len(target_ids) > len(set(custom_ids)):
-- 
2.43.0


From c9e523c64cf91293a961ba719c4fbd77cb076d5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 08/40] fix: limit programming-voltage of MCU to what the
 programming-task accepts

---
 shepherd_core/shepherd_core/data_models/testbed/mcu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/mcu.py b/shepherd_core/shepherd_core/data_models/testbed/mcu.py
index 42a14a3..a7a72a1 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/mcu.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/mcu.py
@@ -34,7 +34,7 @@ class MCU(ShpModel, title="Microcontroller of the Target Node"):
     platform: NameStr
     core: NameStr
     prog_protocol: ProgrammerProtocol
-    prog_voltage: Annotated[float, Field(ge=1, le=5)] = 3
+    prog_voltage: Annotated[float, Field(ge=1, lt=5)] = 3
     prog_datarate: Annotated[int, Field(gt=0, le=1_000_000)] = 500_000
 
     fw_name_default: str
-- 
2.43.0


From 55a325459670fbfa31d69b69d4fd1cddb38d72ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 09/40] fix: decoding a waveform no longer modifies the given
 events

---
 shepherd_core/shepherd_core/decoder_waveform/uart.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index c463ea1..d6a8cbe 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -72,7 +72,8 @@ class Uart:
             # TODO: if float fails load as str -
             #  cast first col as np.datetime64 with ns-resolution, convert to delta
         else:
-            self.events_sig = content
+            self.events_sig = content.copy()
+            # ⤷ signal gets modified below, keep the data of the caller
 
         # verify table
         if self.events_sig.shape[1] != 2:
-- 
2.43.0


From bb1d178f7611233b3fe0de22dfc6c06a66dcb68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:55 +0000
Subject: [PATCH 10/40] fix: mpp-trackers no longer modify the given
 coefficients

---
 shepherd_data/shepherd_data/mppt.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_data/shepherd_data/mppt.py b/shepherd_data/shepherd_data/mppt.py
index 7ce7015..0887045 100644
--- a/shepherd_data/shepherd_data/mppt.py
+++ b/shepherd_data/shepherd_data/mppt.py
@@ -78,6 +78,7 @@ class OpenCircuitTracker(MPPTracker):
         :param coeffs: ivonne coefficients
         :return: ivsample-data
         """
+        coeffs = coeffs.copy()  # keep the data of the caller
         coeffs["icurve"] = coeffs.apply(lambda x: iv_model(self.v_proto, x), axis=1)
         if "voc" not in coeffs.columns:
             coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["ivcurve"]), axis=1)
@@ -108,6 +109,7 @@ class OptimalTracker(MPPTracker):
         :param coeffs: ivonne coefficients
         :return: ivsample-data
         """
+        coeffs = coeffs.copy()  # keep the data of the caller
         coeffs["icurve"] = coeffs.apply(lambda x: iv_model(self.v_proto, x), axis=1)
         coeffs["pcurve"] = coeffs.apply(lambda x: self.v_proto * x["icurve"], axis=1)
         coeffs["max_pos"] = coeffs.apply(lambda x: np.argmax(x["pcurve"]), axis=1)
-- 
2.43.0


From 4505097a020f07fc2b25d27138700853f9d4a2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:51 +0000
Subject: [PATCH 11/40] fix: validators no longer modify the given (nested)
 parameters

---
 shepherd_core/shepherd_core/data_models/task/emulation.py | 1 +
 shepherd_core/shepherd_core/data_models/task/harvest.py   | 2 ++
 shepherd_core/shepherd_core/testbed_client/user_model.py  | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/task/emulation.py b/shepherd_core/shepherd_core/data_models/task/emulation.py
index 579bd44..c1e7747 100644
--- a/shepherd_core/shepherd_core/data_models/task/emulation.py
+++ b/shepherd_core/shepherd_core/data_models/task/emulation.py
@@ -99,6 +99,7 @@ class EmulationTask(ShpModel):
     @classmethod
     def pre_correction(cls, values: dict) -> dict:
         # convert & add local timezone-data
+        values = copy.copy(values)  # keep the data of the caller
         has_time = values.get("time_start") is not None
         if has_time and isinstance(values["time_start"], (int, float)):
             values["time_start"] = datetime.fromtimestamp(values["time_start"], tz=local_tz())
diff --git a/shepherd_core/shepherd_core/data_models/task/harvest.py b/shepherd_core/shepherd_core/data_models/task/harvest.py
index 1cf1610..814b557 100644
--- a/shepherd_core/shepherd_core/data_models/task/harvest.py
+++ b/shepherd_core/shepherd_core/data_models/task/harvest.py
@@ -1,5 +1,6 @@
 """Config for the Observer in Harvest-Mode to record IV data from a harvesting-source."""
 
+import copy
 from datetime import datetime
 from datetime import timedelta
 from pathlib import Path
@@ -58,6 +59,7 @@ class HarvestTask(ShpModel):
     @classmethod
     def pre_correction(cls, values: dict) -> dict:
         # convert & add local timezone-data, TODO: used twice, refactor
+        values = copy.copy(values)  # keep the data of the caller
         has_time = values.get("time_start") is not None
         if has_time and isinstance(values["time_start"], (int, float)):
             values["time_start"] = datetime.fromtimestamp(values["time_start"], tz=local_tz())
diff --git a/shepherd_core/shepherd_core/testbed_client/user_model.py b/shepherd_core/shepherd_core/testbed_client/user_model.py
index 72ccd06..0bccb15 100644
--- a/shepherd_core/shepherd_core/testbed_client/user_model.py
+++ b/shepherd_core/shepherd_core/testbed_client/user_model.py
@@ -1,5 +1,6 @@
 """Model for user-management."""
 
+import copy
 import secrets
 from hashlib import pbkdf2_hmac
 from typing import Optional
@@ -68,6 +69,7 @@ class User(ShpModel):
 
         # post correction
         if values.get("token") is None:
+            values = copy.copy(values)  # keep the data of the caller
             values["token"] = "shepherd_token_" + secrets.token_urlsafe(nbytes=128)
 
         return values
-- 
2.43.0


From d859752e289174da9b429b5b297aaad75b751a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 12/40] fix: detect circles in the inheritance of fixtures

---
 shepherd_core/shepherd_core/testbed_client/fixtures.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index a0ee6c1..36b2735 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -94,6 +94,9 @@ class Fixture:
         if "inherit_from" in values:
             fixture_name = values.pop("inherit_from")
             # ⤷ will also remove entry from dict
+            if str(fixture_name).lower() in [str(_name).lower() for _name in chain]:
+                msg = f"Inheritance-Circle detected ({fixture_name} already in {chain})"
+                raise ValueError(msg)
             if "name" in values and len(chain) < 1:
                 base_name = values.get("name")
                 if base_name in chain:
-- 
2.43.0


From 6adc2e033edfafd747827bf7b1a3875d8f9db997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 13/40] fix: ConstantPowerTarget crashed (division by zero)
 when the output is off

---
 shepherd_core/shepherd_core/vsource/target_model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/vsource/target_model.py b/shepherd_core/shepherd_core/vsource/target_model.py
index e682071..340e690 100644
--- a/shepherd_core/shepherd_core/vsource/target_model.py
+++ b/shepherd_core/shepherd_core/vsource/target_model.py
@@ -122,6 +122,8 @@ class ConstantPowerTarget(TargetABC):
         self.P_sleep_fW = 1e15 * P_sleep_W
 
     def step(self, voltage_uV: int, *, pwr_good: bool) -> float:
+        if voltage_uV <= 0:
+            return 0  # unpowered
         return (self.P_active_fW if pwr_good else self.P_sleep_fW) / voltage_uV  # = nA
 
 
-- 
2.43.0


From 10876699bcf3abddcc2b91f74614afae9c52900d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:53 +0000
Subject: [PATCH 14/40] fix: comparing the hash of a not embedded firmware
 crashed

---
 shepherd_core/shepherd_core/data_models/content/firmware.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index 765569f..c491375 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -144,9 +144,15 @@ class Firmware(ContentModel, title="Firmware of Target"):
         if self.data_hash is None:
             return True
 
+        embedded = self.data_type in base64_to_path_DType
+        if path is None and not embedded:
+            path = Path(self.data)
+
         if path is not None and path.is_file():
             hash_new = fw_tools.file_to_hash(path)
             match = self.data_hash == hash_new
+        elif not embedded:
+            match = False
         else:
             hash_new = fw_tools.base64_to_hash(self.data)
             match = self.data_hash == hash_new
-- 
2.43.0


From 97cde196b39f55d9bd7f560f2461cda84ad15e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:54 +0000
Subject: [PATCH 15/40] fix: corrupted embedded firmware is refused as faulty
 value

---
 shepherd_core/shepherd_core/fw_tools/converter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/converter.py b/shepherd_core/shepherd_core/fw_tools/converter.py
index 07c8a87..ead3aca 100644
--- a/shepherd_core/shepherd_core/fw_tools/converter.py
+++ b/shepherd_core/shepherd_core/fw_tools/converter.py
@@ -74,7 +74,10 @@ def file_to_hash(file_path: Path) -> str:
 def base64_to_hash(content: str) -> str:
     """Convert base64-content to hash-value."""
     file_cmpress = base64.b64decode(content)
-    file_content = zstd.ZstdDecompressor().decompress(file_cmpress)
+    try:
+        file_content = zstd.ZstdDecompressor().decompress(file_cmpress)
+    except zstd.ZstdError as err:
+        raise ValueError("Content is not a valid compressed firmware") from err
     return hashlib.sha3_224(file_content).hexdigest()
 
 
-- 
2.43.0


From da2565011a317825f4146b1ae0b03ef55a384f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:03 +0000
Subject: [PATCH 16/40] fix: start-address of msp430-firmware was never
 verified

---
 shepherd_core/shepherd_core/fw_tools/validation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/fw_tools/validation.py b/shepherd_core/shepherd_core/fw_tools/validation.py
index 088a1b5..b5d9143 100644
--- a/shepherd_core/shepherd_core/fw_tools/validation.py
+++ b/shepherd_core/shepherd_core/fw_tools/validation.py
@@ -54,7 +54,7 @@ def is_hex_msp430(file: Path) -> bool:
         if 0xFFFE not in ih.addresses():
             return False
         value = int.from_bytes(ih.gets(0xFFFE, 2), byteorder="little", signed=False)
-        if 0x4000 > value >= 0xFF80:
+        if not 0x4000 <= value < 0xFF80:
             return False
 
         # conservative test for now - should be well below 128 kB + 8kB for msp430fr5962
-- 
2.43.0


From 3dfa5af2ca1f8bc81793477703cbb835305b855e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 17/40] fix: sample-interval of a file was too small by one
 sample

---
 shepherd_core/shepherd_core/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index b5b81e6..095d538 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -179,7 +179,7 @@ class Reader:
         if (sample_count > 0) and (duration_raw > 0):
             # this assumes iso-chronous sampling
             duration_s = self._cal.time.raw_to_si(duration_raw)
-            self.sample_interval_s = duration_s / sample_count
+            self.sample_interval_s = duration_s / (sample_count - 1)
             self.sample_interval_ns = round(10**9 * self.sample_interval_s)
             self.samplerate_sps = max(round((sample_count - 1) / duration_s), 1)
         self.runtime_s = round(self.ds_voltage.shape[0] / self.samplerate_sps, 1)
-- 
2.43.0


From 55902858c889735ca8dbc4702fbbcebd00af6ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 18/40] fix: time-jumps at chunk-boundaries were never noticed

---
 shepherd_core/shepherd_core/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 095d538..26096e4 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -543,7 +543,7 @@ class Reader:
 
         def calc_timediffs(idx_start: int) -> list:
             ds_time = self.ds_time[
-                idx_start : (idx_start + self.max_elements) : self.samples_per_buffer
+                idx_start : (idx_start + self.max_elements + 1) : self.samples_per_buffer
             ]
             diffs_np = np.unique(ds_time[1:] - ds_time[0:-1], return_counts=False)
             return list(np.array(diffs_np))
-- 
2.43.0


From 5e7a7d30659ba8e125b685be91a4debbfef2237c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 19/40] fix: checking time-deltas of files with less than two
 buffers crashed

---
 shepherd_core/shepherd_core/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 26096e4..31eaef4 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -568,6 +568,8 @@ class Reader:
             self._logger.warning(
                 "Time-jumps detected -> expected equal steps, but got: %s s", diffs
             )
+        if len(diffs) < 1:
+            return True  # less than two buffers, nothing to compare
         return (len(diffs) <= 1) and diffs[0] == round(0.1 / self.samples_per_buffer, 6)
 
     def count_errors_in_log(self, group_name: str = "sheep", min_level: int = 40) -> int:
-- 
2.43.0


From 4d75144cc641a2e4de7be6cba9828f14685c97bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 20/40] fix: mean and std of datasets with more than one chunk
 were wrong

---
 shepherd_core/shepherd_core/reader.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 31eaef4..64a75e1 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -506,7 +506,7 @@ class Reader:
         )
 
         def _calc_statistics(data: np.ndarray) -> list:
-            return [np.mean(data), np.min(data), np.max(data), np.std(data)]
+            return [np.mean(data), np.min(data), np.max(data), np.std(data), data.shape[0]]
 
         stats_list = [
             _calc_statistics(cal.raw_to_si(dset[i : i + self.max_elements])) for i in job_iter
@@ -514,12 +514,17 @@ class Reader:
         if len(stats_list) < 1:
             return {}
         stats_nd = np.stack(stats_list)
+        weights = stats_nd[:, 4]
+        mean = np.average(stats_nd[:, 0], weights=weights)
+        variance = np.average(
+            stats_nd[:, 3] ** 2 + (stats_nd[:, 0] - mean) ** 2,
+            weights=weights,
+        )
         stats: Dict[str, float] = {
-            # TODO: wrong calculation for ndim-datasets with n>1
-            "mean": float(stats_nd[:, 0].mean()),
+            "mean": float(mean),
             "min": float(stats_nd[:, 1].min()),
             "max": float(stats_nd[:, 2].max()),
-            "std": float(stats_nd[:, 3].mean()),  # TODO: sooo wrong :)
+            "std": float(np.sqrt(variance)),
             "si_converted": si_converted,
         }
         return stats
-- 
2.43.0


From 767899b42ed0e1e000b63a6bcc4dbb4da7dac55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 21/40] fix: voltage-step from data ignored the calibration and
 falling ramps

---
 shepherd_core/shepherd_core/reader.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 64a75e1..e90c914 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -290,16 +290,14 @@ class Reader:
             self.get_config().get("virtual_harvester", {}).get("voltage_step_mV", None)
         )
         if voltage_step is None:
-            dsv = self.ds_voltage[0:2000]
-            diffs_np = np.unique(dsv[1:] - dsv[0:-1], return_counts=False)
+            dsv = self._cal.voltage.raw_to_si(self.ds_voltage[0:2000])
+            diffs_np = np.unique(np.abs(dsv[1:] - dsv[0:-1]), return_counts=False)
             diffs_ls = [_e for _e in list(np.array(diffs_np)) if _e > 0]
             # static voltages have 0 steps, so
             if len(diffs_ls) == 0:
                 return None  # or is 0 better? that may provoke div0
-            voltage_step = min(diffs_ls)
-        if voltage_step is not None:
-            voltage_step = 1e-3 * voltage_step
-        return voltage_step
+            return float(min(diffs_ls))
+        return 1e-3 * voltage_step
 
     def get_hrv_config(self) -> dict:
         """Essential info for harvester.
-- 
2.43.0


From 07b479a342f452a3719a596ca6dcad7555aa0ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 22/40] fix: waveform of an unknown gpio crashed instead of
 being empty

---
 shepherd_core/shepherd_core/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index e90c914..3043d86 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -694,7 +694,8 @@ class Reader:
             descriptions = yaml.safe_load(self.h5file["gpio"]["value"].attrs["description"])
             pin_dict = {value["name"]: key for key, value in descriptions.items()}
         else:
-            pin_dict = {name: self.get_gpio_pin_num(name)}
+            pin_num = self.get_gpio_pin_num(name)
+            pin_dict = {} if pin_num is None else {name: pin_num}
 
         for pin_name, pin_num in pin_dict.items():
             gpio_ps = (gpio_vs[:] & (0b1 << pin_num)) > 0
-- 
2.43.0


From 035a65a1b3d5813dc09aa3c22bdd790727919ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:41 +0000
Subject: [PATCH 23/40] fix: waveform of a file without gpio-events crashed

---
 shepherd_core/shepherd_core/reader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index 3043d86..c95a53c 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -679,6 +679,8 @@ class Reader:
         """
         if len(data.shape) > 1:
             raise ValueError("Array must be 1D")
+        if len(data) < 1:
+            return np.empty(0, dtype=bool)
         data_1 = np.concatenate(([not data[0]], data[:-1]))
         return data != data_1
 
-- 
2.43.0


From 0c04c4d63856022179515bbf23b59a149ea12fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:52 +0000
Subject: [PATCH 24/40] fix: header of exported waveforms ignored the separator

---
 shepherd_core/shepherd_core/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/reader.py b/shepherd_core/shepherd_core/reader.py
index c95a53c..089c15c 100644
--- a/shepherd_core/shepherd_core/reader.py
+++ b/shepherd_core/shepherd_core/reader.py
@@ -716,7 +716,7 @@ class Reader:
             self._logger.info("File already exists, will skip '%s'", path_csv.name)
             return
         with path_csv.open("w") as csv:
-            csv.write(f"timestamp [s],{pin_name}\n")
+            csv.write(f"timestamp [s]{separator}{pin_name}\n")
             for row in pin_wf:
                 csv.write(f"{row[0] / 1e9}{separator}{int(row[1])}\n")
 
-- 
2.43.0


From 9e581bbbaef365efc7c8b4020ebd9b7250c59bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:30 +0000
Subject: [PATCH 25/40] fix: downsample in blocks which are a multiple of the
 factor

---
 shepherd_data/shepherd_data/reader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index 1e0efb9..f5fbb75 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -203,7 +203,8 @@ class Reader(CoreReader):
         if data_len == 0:
             self._logger.warning("downsampling failed because of data_len = 0")
             return data_dst
-        iblock_len = min(self.max_elements, data_len)
+        # blocks are whole multiples of the factor, otherwise later ones would be off
+        iblock_len = min(max(1, self.max_elements // ds_factor) * ds_factor, data_len)
         oblock_len = round(iblock_len / ds_factor)
         iterations = math.ceil(data_len / iblock_len)
         dest_len = math.floor(data_len / ds_factor)
-- 
2.43.0


From 75f3e2ac4c31789e48ef6309faa53c2c90fec676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:30 +0000
Subject: [PATCH 26/40] fix: store and name the factor that is applied by
 downsampling

---
 shepherd_data/shepherd_data/reader.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index f5fbb75..d829343 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -284,6 +284,7 @@ class Reader(CoreReader):
                 "Cut & downsample for %s failed because factor < 1",
                 self.file_path.name,
             )
+        ds_factor = math.floor(ds_factor)  # only whole factors are applied
         if ((end_sample - start_sample) / ds_factor) < 1000:
             raise ValueError(
                 "Cut & downsample for %s failed because resulting sample-size is too small",
-- 
2.43.0


From 4a1be2982e1f01e02904773ed29170e634978896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:30 +0000
Subject: [PATCH 27/40] fix: log-export of groups with sub-groups

---
 shepherd_data/shepherd_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index d829343..d4f1d3d 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -109,7 +109,7 @@ class Reader(CoreReader):
         if log_path.exists():
             self._logger.info("File already exists, will skip '%s'", log_path.name)
             return 0
-        datasets = [key if isinstance(h5_group[key], h5py.Dataset) else [] for key in h5_group]
+        datasets = [key for key in h5_group if isinstance(h5_group[key], h5py.Dataset)]
         datasets.remove("time")
         with log_path.open("w", encoding="utf-8-sig") as log_file:
             self._logger.info("Log-Generator will save '%s' to '%s'", h5_group.name, log_path.name)
-- 
2.43.0


From 291977e91b2f74dba996b1b4ef740c2850efd00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:25 +0000
Subject: [PATCH 28/40] fix: programming tasks accept every name an MCU can
 have

---
 shepherd_core/shepherd_core/data_models/task/programming.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/data_models/task/programming.py b/shepherd_core/shepherd_core/data_models/task/programming.py
index e54470e..ae77b95 100644
--- a/shepherd_core/shepherd_core/data_models/task/programming.py
+++ b/shepherd_core/shepherd_core/data_models/task/programming.py
@@ -11,7 +11,7 @@ from typing_extensions import Annotated
 from typing_extensions import Self
 
 from ..base.content import IdInt
-from ..base.content import SafeStr
+from ..base.content import NameStr
 from ..base.shepherd import ShpModel
 from ..content.firmware import suffix_to_DType
 from ..content.firmware_datatype import FirmwareDType
@@ -28,7 +28,7 @@ class ProgrammingTask(ShpModel):
     firmware_file: Path
     target_port: TargetPort = TargetPort.A
     mcu_port: MCUPort = 1
-    mcu_type: SafeStr
+    mcu_type: NameStr
     # ⤷ must be either "nrf52" or "msp430" ATM, TODO: clean xp to tasks
     voltage: Annotated[float, Field(ge=1, lt=5)] = 3
     datarate: Annotated[int, Field(gt=0, le=1_000_000)] = 200_000
-- 
2.43.0


From c94d77d9ad7fffa18ad5d1623017c70fc8588495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:23 +0000
Subject: [PATCH 29/40] fix: cli skips every unreadable file instead of ending
 the whole batch

---
 shepherd_data/shepherd_data/cli.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 166595e..400add4 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -20,6 +20,9 @@ from .reader import Reader
 
 logger = logging.getLogger("SHPData.cli")
 
+# raised for files that are damaged or no (complete) recording, see Reader
+READ_ERRORS = (TypeError, ValueError, KeyError, OSError)
+
 
 def path_to_flist(data_path: Path, *, recurse: bool = False) -> List[Path]:
     """Every path gets transformed to a list of paths.
@@ -88,7 +91,7 @@ def validate(in_data: Path, *, recurse: bool = False) -> None:
                 valid_dir &= valid_file
                 if not valid_file:
                     logger.error(" -> File '%s' was NOT valid", file.name)
-        except TypeError:
+        except READ_ERRORS:
             logger.exception("ERROR: Will skip file. It caused an exception.")
     sys.exit(int(not valid_dir))
 
@@ -157,7 +160,7 @@ def extract(
                 out_file = shpr.cut_and_downsample_to_file(start, end, ds_factor=ds_factor)
                 with Reader(out_file, verbose=verbose_level > 2) as shpd:
                     shpd.save_csv(shpd["data"], separator, raw=raw)
-        except (TypeError, ValueError):
+        except READ_ERRORS:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -202,7 +205,7 @@ def extract_meta(in_data: Path, separator: str, *, recurse: bool = False) -> Non
                         # TODO: allow omitting timestamp,
                         #       also test if segmented uart is correctly written
                         shpr.warn_logs(element, show=True)
-        except TypeError:
+        except READ_ERRORS:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -243,7 +246,7 @@ def extract_uart(in_data: Path, *, recurse: bool = False) -> None:
                             log_file.write(f"\t{str.encode(line[1])}")
                             # TODO: does this produce "\tb'abc'"?
                             log_file.write("\n")
-        except TypeError:
+        except READ_ERRORS:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -273,7 +276,7 @@ def extract_gpio(in_data: Path, separator: str, *, recurse: bool = False) -> Non
                 wfs = shpr.gpio_to_waveforms()
                 for name, wf in wfs.items():
                     shpr.waveform_to_csv(name, wf, separator)
-        except TypeError:
+        except READ_ERRORS:
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -341,7 +344,7 @@ def downsample(
                 for _factor in ds_list:
                     path_file = shpr.cut_and_downsample_to_file(start, end, _factor)
                     logger.info("Created %s", path_file.name)
-        except (TypeError, ValueError):  # noqa: PERF203
+        except READ_ERRORS:  # noqa: PERF203
             logger.exception("ERROR: Will skip file. It caused an exception.")
 
 
@@ -420,7 +423,7 @@ def plot(
                     data.append(date)
                 else:
                     shpr.plot_to_file(start, end, width, height, only_pwr=only_power)
-        except TypeError:
+        except READ_ERRORS:
             logger.exception("ERROR: Will skip file. It caused an exception.")
     if multiplot:
         logger.info("Got %d datasets to plot", len(data))
-- 
2.43.0


From 7919d413065f070fbdd58e478c5453663bc16040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:23 +0000
Subject: [PATCH 30/40] fix: validation fails for files that can not be read

---
 shepherd_data/shepherd_data/cli.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 400add4..01ea0d8 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -92,6 +92,7 @@ def validate(in_data: Path, *, recurse: bool = False) -> None:
                 if not valid_file:
                     logger.error(" -> File '%s' was NOT valid", file.name)
         except READ_ERRORS:
+            valid_dir = False
             logger.exception("ERROR: Will skip file. It caused an exception.")
     sys.exit(int(not valid_dir))
 
-- 
2.43.0


From 2c17fc256616fb227baed5d949d5d55f934e9a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:23 +0000
Subject: [PATCH 31/40] fix: downsample determines the factor for each file on
 its own

---
 shepherd_data/shepherd_data/cli.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/cli.py b/shepherd_data/shepherd_data/cli.py
index 01ea0d8..b6b2b31 100644
--- a/shepherd_data/shepherd_data/cli.py
+++ b/shepherd_data/shepherd_data/cli.py
@@ -334,11 +334,12 @@ def downsample(
     for file in files:
         try:
             with Reader(file, verbose=verbose_level > 2) as shpr:
+                file_factor = ds_factor
                 if ds_factor is None and sample_rate is not None and sample_rate >= 1:
-                    ds_factor = shpr.samplerate_sps / sample_rate
+                    file_factor = shpr.samplerate_sps / sample_rate
 
-                if isinstance(ds_factor, (float, int)) and ds_factor >= 1:
-                    ds_list = [ds_factor]
+                if isinstance(file_factor, (float, int)) and file_factor >= 1:
+                    ds_list = [file_factor]
                 else:
                     ds_list = [5, 25, 100, 500, 2_500, 10_000, 50_000, 250_000, 1_000_000]
 
-- 
2.43.0


From aa4448f814c8323dda1491bde374517d187a9902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:46 +0000
Subject: [PATCH 32/40] fix: cached fixtures are only used for the default path

---
 shepherd_core/shepherd_core/testbed_client/fixtures.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index 36b2735..a4eec93 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -188,8 +188,12 @@ class Fixtures:
         cache_file = cache_user_path / "fixtures.pickle"
         sheep_detect = Path("/lib/firmware/am335x-pru0-fw").exists()
 
+        use_cache = file_path is None
+        # ⤷ only contains the default fixtures
+
         if (
-            not sheep_detect
+            use_cache
+            and not sheep_detect
             and cache_file.exists()
             and not file_older_than(cache_file, timedelta(hours=24))
             and not reset
@@ -215,7 +219,7 @@ class Fixtures:
 
             if len(self.components) < 1:
                 logger.error(f"No fixture-components found at {self.file_path.as_posix()}")
-            elif sheep_detect:
+            elif use_cache and sheep_detect:
                 cache_file.parent.mkdir(parents=True, exist_ok=True)
                 with cache_file.open("wb", buffering=-1) as fd:
                     pickle.dump(self.components, fd)
-- 
2.43.0


From c727a5260f6980bdd31006898b840ba4619814d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:46 +0000
Subject: [PATCH 33/40] fix: uart-decoder lost high bits, empty frames and
 symbols after a lone carriage-return

---
 .../shepherd_core/decoder_waveform/uart.py    | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/shepherd_core/shepherd_core/decoder_waveform/uart.py b/shepherd_core/shepherd_core/decoder_waveform/uart.py
index d6a8cbe..c138f73 100644
--- a/shepherd_core/shepherd_core/decoder_waveform/uart.py
+++ b/shepherd_core/shepherd_core/decoder_waveform/uart.py
@@ -215,10 +215,14 @@ class Uart:
         content = []
 
         for time, value, steps in self.events_sig:
-            if steps > self.frame_length:
+            # start-bit & an empty data-frame are low together
+            steps_max = self.frame_length if value else self.frame_length + 1.5
+            if steps > steps_max:
                 if value:
                     # long pause on High -> reset frame
                     if pos_df is not None:
+                        # remaining bits of frame are high
+                        symbol += (2 ** (self.frame_length - pos_df) - 1) << pos_df
                         content.append([t_start, chr(symbol)])
                         t_start = None
                         symbol = 0
@@ -233,9 +237,8 @@ class Uart:
                 t_start = time
             if pos_df is not None:
                 if round(steps) >= 1 and value:
-                    chunk = min(steps, self.frame_length - pos_df - 1)
-                    lshift = min(pos_df, self.frame_length - 1)
-                    symbol += (2 ** round(chunk) - 1) << lshift
+                    chunk = min(steps, self.frame_length - pos_df)
+                    symbol += (2 ** round(chunk) - 1) << pos_df
                 pos_df += round(steps)
                 off_tick = abs(steps - round(steps)) > 0.1
                 if pos_df >= self.frame_length or (off_tick and value):
@@ -267,21 +270,23 @@ class Uart:
         t_start = None
         line = ""
         for time, symbol in self.events_symbols:
-            if symbol == "\n" or semi_stop:
-                if symbol == "\n":
-                    line += symbol
+            if semi_stop and symbol != "\n":
+                # line ended with \r alone
                 content.append((t_start, line))
-                semi_stop = False
                 t_start = None
                 line = ""
-                if not semi_stop:
-                    continue
-            if symbol == "\r":
-                semi_stop = True
+            semi_stop = symbol == "\r"
 
             if t_start is None:
                 t_start = time
             line += symbol
+            if symbol == "\n":
+                content.append((t_start, line))
+                t_start = None
+                line = ""
+        if len(line) > 0:
+            # last line may not be terminated
+            content.append((t_start, line))
         self.events_lines = np.concatenate(content).reshape((len(content), 2))
         return self.events_lines
 
-- 
2.43.0


From a6146b0fae3df7a3355006ed1946c180ce0c4527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:32 +0000
Subject: [PATCH 34/40] fix: open-circuit tracker approximates unknown
 open-circuit voltages

---
 shepherd_data/shepherd_data/mppt.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/shepherd_data/shepherd_data/mppt.py b/shepherd_data/shepherd_data/mppt.py
index 0887045..605b29e 100644
--- a/shepherd_data/shepherd_data/mppt.py
+++ b/shepherd_data/shepherd_data/mppt.py
@@ -34,9 +34,10 @@ def find_oc(v_arr: np.ndarray, i_arr: np.ndarray, ratio: float = 0.05) -> np.nda
     """Approximates opencircuit voltage.
 
     Searches last current value that is above a certain ratio of the short-circuit
-    current.
+    current. Curves that never fall below are cut off by the largest voltage.
     """
-    return v_arr[np.argmax(i_arr < i_arr[0] * ratio)]
+    below = i_arr < i_arr[0] * ratio
+    return v_arr[np.argmax(below) if below.any() else -1]
 
 
 class MPPTracker(ABC):
@@ -81,7 +82,7 @@ class OpenCircuitTracker(MPPTracker):
         coeffs = coeffs.copy()  # keep the data of the caller
         coeffs["icurve"] = coeffs.apply(lambda x: iv_model(self.v_proto, x), axis=1)
         if "voc" not in coeffs.columns:
-            coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["ivcurve"]), axis=1)
+            coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["icurve"]), axis=1)
         coeffs["rvoc_pos"] = coeffs.apply(
             lambda x: np.argmax(self.v_proto[self.v_proto < self.ratio * x["voc"]]),
             axis=1,
-- 
2.43.0


From b6f2cb8be9a636ec66d98b0f0939bc1ca35e466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:32 +0000
Subject: [PATCH 35/40] fix: open-circuit tracker does not fail in darkness

---
 shepherd_data/shepherd_data/mppt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/mppt.py b/shepherd_data/shepherd_data/mppt.py
index 605b29e..6154f90 100644
--- a/shepherd_data/shepherd_data/mppt.py
+++ b/shepherd_data/shepherd_data/mppt.py
@@ -84,7 +84,7 @@ class OpenCircuitTracker(MPPTracker):
         if "voc" not in coeffs.columns:
             coeffs["voc"] = coeffs.apply(lambda x: find_oc(self.v_proto, x["icurve"]), axis=1)
         coeffs["rvoc_pos"] = coeffs.apply(
-            lambda x: np.argmax(self.v_proto[self.v_proto < self.ratio * x["voc"]]),
+            lambda x: max(0, np.count_nonzero(self.v_proto < self.ratio * x["voc"]) - 1),
             axis=1,
         )
         coeffs["i"] = coeffs.apply(lambda x: x["icurve"][x["rvoc_pos"]], axis=1)
-- 
2.43.0


From 6d1a2ff8b2a4a8ec76354edbd84b16d9f3552eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:21 +0000
Subject: [PATCH 36/40] fix: a target without ID is refused instead of crashing

---
 shepherd_core/shepherd_core/data_models/testbed/target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/testbed/target.py b/shepherd_core/shepherd_core/data_models/testbed/target.py
index f64a94b..6ca8d2d 100644
--- a/shepherd_core/shepherd_core/data_models/testbed/target.py
+++ b/shepherd_core/shepherd_core/data_models/testbed/target.py
@@ -55,7 +55,7 @@ class Target(ShpModel, title="Target Node (DuT)"):
                 # ⤷ this will raise if default is faulty
             elif isinstance(values.get(_mcu), dict):
                 values[_mcu] = MCU(**values[_mcu])
-        if values.get("testbed_id") is None:
+        if values.get("testbed_id") is None and values.get("id") is not None:
             values["testbed_id"] = values.get("id") % 2**16
 
         return values
-- 
2.43.0


From 4256de8f434cba5a3f3d4ceb0f2ac26f8cb38871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:21 +0000
Subject: [PATCH 37/40] fix: firmware without data and non-executable ELF are
 refused instead of crashing

---
 shepherd_core/shepherd_core/data_models/content/firmware.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/data_models/content/firmware.py b/shepherd_core/shepherd_core/data_models/content/firmware.py
index c491375..81e9426 100644
--- a/shepherd_core/shepherd_core/data_models/content/firmware.py
+++ b/shepherd_core/shepherd_core/data_models/content/firmware.py
@@ -84,7 +84,7 @@ class Firmware(ContentModel, title="Firmware of Target"):
         }:
             try:
                 _ = Path(values.get("data"))
-            except (SyntaxError, NameError):
+            except (SyntaxError, NameError, TypeError):
                 raise ValueError("Firmware-Path is invalid") from None
         return tb_client.fill_in_user_data(values)
 
@@ -125,6 +125,8 @@ class Firmware(ContentModel, title="Firmware of Target"):
 
         if kwargs["data_type"] == FirmwareDType.base64_elf:
             arch = fw_tools.read_arch(file)
+            if arch is None:
+                raise ValueError("File is not an executable ELF")
             if "msp430" in arch and not fw_tools.is_elf_msp430(file):
                 raise ValueError("File is not a ELF for msp430")
             if ("nrf52" in arch or "arm" in arch) and not fw_tools.is_elf_nrf52(file):
-- 
2.43.0


From 4512fe3b68ab76c2260f188ee813d5dcbd5db379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:21 +0000
Subject: [PATCH 38/40] fix: a missing name of an element is refused instead of
 crashing

---
 shepherd_core/shepherd_core/testbed_client/fixtures.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/shepherd_core/shepherd_core/testbed_client/fixtures.py b/shepherd_core/shepherd_core/testbed_client/fixtures.py
index a4eec93..66212da 100644
--- a/shepherd_core/shepherd_core/testbed_client/fixtures.py
+++ b/shepherd_core/shepherd_core/testbed_client/fixtures.py
@@ -121,7 +121,10 @@ class Fixture:
             values = base_dict
 
         # TODO: cleanup and simplify - use fill_mode() and line up with web-interface
-        elif "name" in values and values.get("name").lower() in self.elements_by_name:
+        elif (
+            isinstance(values.get("name"), str)
+            and values.get("name").lower() in self.elements_by_name
+        ):
             fixture_name = values.get("name").lower()
             fixture_base = copy.copy(self.elements_by_name[fixture_name])
             post_process = True
-- 
2.43.0


From b7425c1f72885a630bf77e958409b97e3d7013e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:21 +0000
Subject: [PATCH 39/40] fix: the web-client works without account

---
 shepherd_core/shepherd_core/testbed_client/client_web.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/shepherd_core/shepherd_core/testbed_client/client_web.py b/shepherd_core/shepherd_core/testbed_client/client_web.py
index a86d391..54d6619 100644
--- a/shepherd_core/shepherd_core/testbed_client/client_web.py
+++ b/shepherd_core/shepherd_core/testbed_client/client_web.py
@@ -72,6 +72,8 @@ class WebClient(AbcClient):
         raise NotImplementedError("TODO")
 
     def fill_in_user_data(self, values: dict) -> dict:
+        if self._user is None:
+            return values  # public access -> there is no account
         if values.get("owner") is None:
             values["owner"] = self._user.name
         if values.get("group") is None:
-- 
2.43.0


From 2bf361b327b53a4256f2389b56d522998f0d3a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:14:21 +0000
Subject: [PATCH 40/40] fix: down-sampling nothing yields an empty array

---
 shepherd_data/shepherd_data/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shepherd_data/shepherd_data/reader.py b/shepherd_data/shepherd_data/reader.py
index d4f1d3d..c68c59d 100644
--- a/shepherd_data/shepherd_data/reader.py
+++ b/shepherd_data/shepherd_data/reader.py
@@ -202,7 +202,7 @@ class Reader(CoreReader):
         data_len = _end_n - start_n  # TODO: one-off to calculation below ?
         if data_len == 0:
             self._logger.warning("downsampling failed because of data_len = 0")
-            return data_dst
+            return np.empty((0,)) if data_dst is None else data_dst
         # blocks are whole multiples of the factor, otherwise later ones would be off
         iblock_len = min(max(1, self.max_elements // ds_factor) * ds_factor, data_len)
         oblock_len = round(iblock_len / ds_factor)
-- 
2.43.0

