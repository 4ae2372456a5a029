From 3f2c1d4c857ae3bfbd3f06189f9d2c757d69ec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:54 +0000
Subject: [PATCH 01/32] fix: encode Push and Pop without data bytes

HID defines Push and Pop as items without data, they were encoded with
a useless zero data byte.
---
 hrdc/stream/item.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index 5a5ad36..259fe7e 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -61,8 +61,10 @@ class Item(metaclass = _ItemMeta):
         assert self.signed or int(self.value) >= 0, \
                ValueError("Unexpected value for %s: %d"
                           % (self.__class__.__name__, self.value))
-        self.optionalValue = self.kind == self.Main and \
-                             self.tag in (MainItem.Input, MainItem.EndCollection)
+        self.optionalValue = (self.kind == self.Main and \
+                              self.tag in (MainItem.Input, MainItem.EndCollection)) \
+                             or (self.kind == self.Global and \
+                                 self.tag in (GlobalItem.Push, GlobalItem.Pop))
 
     def __str__(self):
         if int(self.value) or not self.optionalValue:
-- 
2.43.0


From 57db4c3843dad7763144d42514a3c7a96af82baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:54 +0000
Subject: [PATCH 02/32] fix: name the CmPerSec unit as the constant that holds
 it

Dumped scripts referred to Unit.Velocity, which does not exist.
---
 hrdc/stream/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index 259fe7e..71050a5 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -297,7 +297,7 @@ class Unit(GlobalItem):
     Fahrenheit = NamedConstant("Fahrenheit", EnglishLinear | temperature(1))
     Ampere = NamedConstant("Ampere", current(1))
     Candela = NamedConstant("Candela", luminousintensity(1))
-    CmPerSec = NamedConstant("Velocity", SILinear | time(-1) | length(1))
+    CmPerSec = NamedConstant("CmPerSec", SILinear | time(-1) | length(1))
     Momentum = NamedConstant("Momentum", SILinear | time(-1) | length(1) | mass(1))
     G = NamedConstant("G", SILinear | time(-2) | length(1))
     Newton = NamedConstant("Newton", SILinear | time(-2) | length(1) | mass(1))
-- 
2.43.0


From da095a3f27236dadabe8545ff2fccd2a4f169325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:11 +0000
Subject: [PATCH 03/32] fix: usage names match the constants they name

Dumped scripts and listings used names which do not resolve.
---
 hrdc/usage/desktop.py    | 6 +++---
 hrdc/usage/lighting.py   | 2 +-
 hrdc/usage/simulation.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hrdc/usage/desktop.py b/hrdc/usage/desktop.py
index 8798e7b..698e598 100644
--- a/hrdc/usage/desktop.py
+++ b/hrdc/usage/desktop.py
@@ -7,7 +7,7 @@ Gamepad = Usage("desktop.Gamepad", 0x10005, CA)
 Keyboard = Usage("desktop.Keyboard", 0x10006, CA)
 Keypad = Usage("desktop.Keypad", 0x10007, CA)
 MultiAxisCtrl = Usage("desktop.MultiAxisCtrl", 0x10008, CA)
-TabletPCSystem = Usage("desktop.TabletPcSystem", 0x10009, CA)
+TabletPCSystem = Usage("desktop.TabletPCSystem", 0x10009, CA)
 
 # HUTRR51
 PortableDeviceControl = Usage("desktop.PortableDeviceControl", 0x1000d, CA)
@@ -25,8 +25,8 @@ HatSwitch = Usage("desktop.HatSwitch", 0x10039, DV)
 CountedBuffer = Usage("desktop.CountedBuffer", 0x1003A, CL)
 ByteCount = Usage("desktop.ByteCount", 0x1003B, DV)
 MotionWakeup = Usage("desktop.MotionWakeup", 0x1003C, OSC)
-Start = Usage("desktop.start", 0x1003D, OOC)
-Select = Usage("desktop.select", 0x1003E, OOC)
+Start = Usage("desktop.Start", 0x1003D, OOC)
+Select = Usage("desktop.Select", 0x1003E, OOC)
 Vx = Usage("desktop.Vx", 0x10040, DV)
 Vy = Usage("desktop.Vy", 0x10041, DV)
 Vz = Usage("desktop.Vz", 0x10042, DV)
diff --git a/hrdc/usage/lighting.py b/hrdc/usage/lighting.py
index 0a0b05c..4229d8b 100644
--- a/hrdc/usage/lighting.py
+++ b/hrdc/usage/lighting.py
@@ -9,7 +9,7 @@ BoundingBoxWidthInMicrometers = Usage("lighting.BoundingBoxWidthInMicrometers",
 BoundingBoxHeightInMicrometers = Usage("lighting.BoundingBoxHeightInMicrometers", 0x590005, SV)
 BoundingBoxDepthInMicrometers = Usage("lighting.BoundingBoxDepthInMicrometers", 0x590006, SV)
 LampArrayKind = Usage("lighting.LampArrayKind", 0x590007, SV)
-MinUpdateIntervalInMicroseconds = Usage("lighting. MinUpdateIntervalInMicroseconds", 0x590008, SV)
+MinUpdateIntervalInMicroseconds = Usage("lighting.MinUpdateIntervalInMicroseconds", 0x590008, SV)
 LampAttributesRequestReport = Usage("lighting.LampAttributesRequestReport", 0x590020, CL)
 LampId = Usage("lighting.LampId", 0x590021, SV)
 LampAttributesResponseReport = Usage("lighting.LampAttributesResponseReport", 0x590022, CL)
diff --git a/hrdc/usage/simulation.py b/hrdc/usage/simulation.py
index 6595585..4146b65 100644
--- a/hrdc/usage/simulation.py
+++ b/hrdc/usage/simulation.py
@@ -20,7 +20,7 @@ FlightYoke = Usage("simulation.FlightYoke", 0x20024, CA)
 TrackControl = Usage("simulation.TrackControl", 0x20025, CP)
 Aileron = Usage("simulation.Aileron", 0x200B0, DV)
 AileronTrim = Usage("simulation.AileronTrim", 0x200B1, DV)
-AntiTorqueControl = Usage("simulation.TorqueControl", 0x200B2, DV)
+AntiTorqueControl = Usage("simulation.AntiTorqueControl", 0x200B2, DV)
 AutopilotEnable = Usage("simulation.AutopilotEnable", 0x200B3, OOC)
 ChaffRelease = Usage("simulation.ChaffRelease", 0x200B4, OSC)
 CollectiveControl = Usage("simulation.CollectiveControl", 0x200B5, DV)
-- 
2.43.0


From 1933f95fc9765f9d6277b78090d7f9a6a3e0d2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:11 +0000
Subject: [PATCH 04/32] fix: value of desktop.SystemDisplayRotationLockButton

It had one zero too many and ended on the camera control side of the
usage space rather than on the Generic Desktop page.
---
 hrdc/usage/desktop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/usage/desktop.py b/hrdc/usage/desktop.py
index 698e598..3827d46 100644
--- a/hrdc/usage/desktop.py
+++ b/hrdc/usage/desktop.py
@@ -81,7 +81,7 @@ WirelessRadioLed = Usage("desktop.WirelessRadioLed", 0x100c7, OOC)
 WirelessRadioSliderSwitch = Usage("desktop.WirelessRadioSliderSwitch", 0x100c8, OOC)
 
 # HUTRR52
-SystemDisplayRotationLockButton = Usage("desktop.SystemDisplayRotationLockButton", 0x1000C9, OOC)
+SystemDisplayRotationLockButton = Usage("desktop.SystemDisplayRotationLockButton", 0x100C9, OOC)
 SystemDisplayRotationLockSliderSwitch = Usage("desktop.SystemDisplayRotationLockSliderSwitch", 0x100CA, OOC)
 
 # HUTRR50
-- 
2.43.0


From adf102ce2a3429a5a94bc1d6d5c882b2f8bb45f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:11 +0000
Subject: [PATCH 05/32] fix: naming of usages does not depend on the ones
 created before

Creating a button or ordinal above the predefined ones registered it,
so that later listings of unrelated descriptors changed.
---
 hrdc/usage/button.py  | 2 +-
 hrdc/usage/ordinal.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrdc/usage/button.py b/hrdc/usage/button.py
index 554e752..d0558c2 100644
--- a/hrdc/usage/button.py
+++ b/hrdc/usage/button.py
@@ -2,7 +2,7 @@ from .usage import *
 
 def Button(n):
     return Usage("button.Button(%d)" % int(n), 0x90000 + int(n),
-                 Sel, OOC, MC, OSC)
+                 Sel, OOC, MC, OSC, register = int(n) < 128)
 
 for i in range(128):
     Button(i)
diff --git a/hrdc/usage/ordinal.py b/hrdc/usage/ordinal.py
index 766fa64..b9c425d 100644
--- a/hrdc/usage/ordinal.py
+++ b/hrdc/usage/ordinal.py
@@ -1,7 +1,7 @@
 from .usage import *
 
 def Ordinal(n):
-    return Usage("ordinal.Ordinal(%d)" % int(n), 0xa0000 + int(n), CL)
+    return Usage("ordinal.Ordinal(%d)" % int(n), 0xa0000 + int(n), CL, register = int(n) < 128)
 
 for i in range(128):
     Ordinal(i)
-- 
2.43.0


From 747603a979ba7d8a0e7ea1fa5c1f944365fd4af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:44 +0000
Subject: [PATCH 06/32] fix: binary format with named files

Command line tools open files in text mode, only stdin and stdout were
switched to their binary buffer.
---
 hrdc/stream/formatter/binary.py | 3 +--
 hrdc/stream/parser/binary.py    | 4 +---
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/hrdc/stream/formatter/binary.py b/hrdc/stream/formatter/binary.py
index 62f1399..a9b22c4 100644
--- a/hrdc/stream/formatter/binary.py
+++ b/hrdc/stream/formatter/binary.py
@@ -2,8 +2,7 @@ from .base import Formatter
 
 class Binary(Formatter):
     def __init__(self, output):
-        import sys
-        if output == sys.stdout and hasattr(output, "buffer"):
+        if hasattr(output, "buffer"):
             self.output = output.buffer
         else:
             self.output = output
diff --git a/hrdc/stream/parser/binary.py b/hrdc/stream/parser/binary.py
index ccfa24e..fb539ab 100644
--- a/hrdc/stream/parser/binary.py
+++ b/hrdc/stream/parser/binary.py
@@ -2,9 +2,7 @@ from .base import Parser
 
 class Binary(Parser):
     def __init__(self, input, output):
-        import sys
-
-        if input == sys.stdin and hasattr(input, "buffer"):
+        if hasattr(input, "buffer"):
             input = input.buffer
 
         Parser.__init__(self, input, output)
-- 
2.43.0


From d48b591942fc1f3241f6178fa0c145973c215554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:44 +0000
Subject: [PATCH 07/32] fix: double slash inside block comments of code
 listings

The rest of the line was dropped including the end of the block
comment, which then swallowed data up to the next one.
---
 hrdc/stream/comparer.py    | 5 +----
 hrdc/stream/parser/code.py | 6 ++----
 2 files changed, 3 insertions(+), 8 deletions(-)

diff --git a/hrdc/stream/comparer.py b/hrdc/stream/comparer.py
index f7a66f9..cd75d01 100644
--- a/hrdc/stream/comparer.py
+++ b/hrdc/stream/comparer.py
@@ -7,10 +7,7 @@ class ExpectedStream(stream.Stream):
     def __init__(self, test_case, expected_code):
         self.test_case = test_case
 
-        contents = ""
-        for line in expected_code.split("\n"):
-            contents += line.split("//", 1)[0] + " "
-        contents = re.sub(r"/\*.*?\*/", "", contents)
+        contents = re.sub(r"//[^\n]*|/\*.*?\*/", " ", expected_code, flags = re.DOTALL)
         contents = re.sub(r"\s+", "", contents)
         self.expected = bytes(int(x, 16) for x in contents.split(",") if x)
         self.point = 0
diff --git a/hrdc/stream/parser/code.py b/hrdc/stream/parser/code.py
index 20105bf..6711a30 100644
--- a/hrdc/stream/parser/code.py
+++ b/hrdc/stream/parser/code.py
@@ -3,10 +3,8 @@ import re
 
 class Code(Parser):
     def read(self, *args):
-        contents = ""
-        for line in self.input.read(*args).split("\n"):
-            contents += line.split("//", 1)[0] + " "
-        contents = re.sub(r"/\*.*?\*/", "", contents)
+        contents = self.input.read(*args)
+        contents = re.sub(r"//[^\n]*|/\*.*?\*/", " ", contents, flags = re.DOTALL)
         contents = re.sub(r"\s+", "", contents)
         blob = bytes(int(x, 16) for x in contents.split(",") if x)
         self.blobParse(blob)
-- 
2.43.0


From 57bdf417222fe85463be6abce68a3231c6604878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:44 +0000
Subject: [PATCH 08/32] fix: report output write errors in command line tools

Data was still buffered on exit, failing to write it then went
unnoticed and the command exited successfully.
---
 hrdc/converter.py            | 1 +
 hrdc/descriptor/compiler.py  | 1 +
 hrdc/descriptor/extractor.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/hrdc/converter.py b/hrdc/converter.py
index 758f37b..4c2ad36 100644
--- a/hrdc/converter.py
+++ b/hrdc/converter.py
@@ -34,6 +34,7 @@ def _main():
 
     p = _parser(args.input, stream)
     p.read()
+    args.output.flush()
 
 if __name__ == '__main__':
     _main()
diff --git a/hrdc/descriptor/compiler.py b/hrdc/descriptor/compiler.py
index 4713f76..24d514a 100644
--- a/hrdc/descriptor/compiler.py
+++ b/hrdc/descriptor/compiler.py
@@ -32,3 +32,4 @@ def compile_main(desc):
     visitor = streamer.Streamer(output)
     desc.accept(visitor)
     output.close()
+    args.output.flush()
diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 792b45f..93092aa 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -290,6 +290,7 @@ def main():
 
     from .dumper import Dumper
     extractor.root.accept(Dumper(args.output))
+    args.output.flush()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From fc7a4a8ede1ff4439efd9f749622d7ea6900da98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:14 +0000
Subject: [PATCH 09/32] fix: only drop a null designator when it is the only
 one of its item

A zero designator was dropped although others of the same item
followed a global item, or were given as a range.  Items pending at
end of stream are now flushed.
---
 hrdc/stream/optimizer/designator_uniq.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hrdc/stream/optimizer/designator_uniq.py b/hrdc/stream/optimizer/designator_uniq.py
index 8d9ba00..bd1fdc6 100644
--- a/hrdc/stream/optimizer/designator_uniq.py
+++ b/hrdc/stream/optimizer/designator_uniq.py
@@ -12,6 +12,8 @@ class DesignatorUniq(Optimizer):
         self.designatorToFilter = None
 
     def close(self):
+        for i in self.pending:
+            self.stream.append(i)
         self.stream.close()
         
     def append(self, item):
@@ -26,7 +28,9 @@ class DesignatorUniq(Optimizer):
                     self.designatorToFilter = item
                 else:
                     self.designatorToFilter = False
-        else:
+            elif item.tag in (LocalItem.DesignatorMinimum, LocalItem.DesignatorMaximum):
+                self.designatorToFilter = False
+        elif item.kind == Item.Main:
             if self.designatorToFilter:
                 self.pending = [x for x in self.pending if x is not self.designatorToFilter]
             for i in self.pending:
-- 
2.43.0


From e686e2cff29cb404a97991467a980aac9f7e2203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:14 +0000
Subject: [PATCH 10/32] fix: global merging across Push and Pop

Pop restores globals, merging has to compare with restored values.
---
 hrdc/stream/optimizer/global_merge.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hrdc/stream/optimizer/global_merge.py b/hrdc/stream/optimizer/global_merge.py
index 11db9de..4a74843 100644
--- a/hrdc/stream/optimizer/global_merge.py
+++ b/hrdc/stream/optimizer/global_merge.py
@@ -10,6 +10,7 @@ class GlobalMerge(Optimizer):
 
         self.stream = stream
         self.locals = {}
+        self.stack = []
         self.globals = {
             GlobalItem.Unit: Unit(0),
             GlobalItem.UnitExponent: UnitExponent(0),
@@ -26,11 +27,16 @@ class GlobalMerge(Optimizer):
         from ..item import Item, GlobalItem
 
         if item.kind == Item.Global:
-            if self.globals.get(item.tag, None) != item \
-                   or item.tag == GlobalItem.Push \
-                   or item.tag == GlobalItem.Pop:
+            if item.tag == GlobalItem.Push:
+                self.stack.append(dict(self.globals))
                 self.stream.append(item)
-            self.globals[item.tag] = item
+            elif item.tag == GlobalItem.Pop:
+                self.globals = self.stack.pop() if self.stack else {}
+                self.stream.append(item)
+            else:
+                if self.globals.get(item.tag, None) != item:
+                    self.stream.append(item)
+                self.globals[item.tag] = item
 
         elif item.kind == Item.Local:
             self.stream.append(item)
-- 
2.43.0


From d445b4f27344f9573af16e0b72cead1d6bbfffef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:14 +0000
Subject: [PATCH 11/32] fix: range merging across usage pages and delimiters

Merged usages were moved after a following Usage Page, out of their
delimited set, or across the end of their usage page.
---
 hrdc/stream/optimizer/range_merge.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/hrdc/stream/optimizer/range_merge.py b/hrdc/stream/optimizer/range_merge.py
index 303ea57..9f856b8 100644
--- a/hrdc/stream/optimizer/range_merge.py
+++ b/hrdc/stream/optimizer/range_merge.py
@@ -42,17 +42,22 @@ class RangeMerge(Optimizer):
         self.stream.close()
 
     def append(self, item):
-        from ..item import Item, LocalItem
+        from ..item import Item, LocalItem, GlobalItem
+
+        if self.merging and item.kind == Item.Global and self.maxValue is not None \
+               and item.tag in (GlobalItem.UsagePage, GlobalItem.Push, GlobalItem.Pop):
+            self.merging = False
 
         if self.merging and item.kind == Item.Local:
-            if item.tag in (self.min, self.max):
+            if item.tag in (self.min, self.max, LocalItem.Delimiter):
                 self.merging = False
                 
             elif item.tag == self.lookup:
                 if self.maxValue is None:
                     self.maxValue = item.value
                     self.minValue = item.value
-                elif int(item.value) == int(self.maxValue) + 1:
+                elif int(item.value) == int(self.maxValue) + 1 \
+                     and int(item.value) >> 16 == int(self.maxValue) >> 16:
                     self.maxValue = item.value
                 else:
                     self.merging = False
-- 
2.43.0


From 37cb99387aac1680172ab7e687c07cc603cdb0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:41 +0000
Subject: [PATCH 12/32] fix: usage page splitting of streams that already have
 usage pages

Short usages of parsed streams were moved to usage page 0.  Keep track
of the page they refer to, across Push and Pop as well.
---
 hrdc/stream/optimizer/usage_page.py | 38 +++++++++++++++++++++--------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/hrdc/stream/optimizer/usage_page.py b/hrdc/stream/optimizer/usage_page.py
index 5bceda4..cc629e0 100644
--- a/hrdc/stream/optimizer/usage_page.py
+++ b/hrdc/stream/optimizer/usage_page.py
@@ -6,26 +6,44 @@ class UsagePage(Optimizer):
     def __init__(self, stream):
         self.stream = stream
         self.page = None
+        self.inPage = None
+        self.stack = []
+
+    def pageSet(self, page):
+        from ..item import UsagePage
+
+        if self.page is None or self.page != int(page):
+            self.page = int(page)
+            self.stream.append(UsagePage(page))
 
     def append(self, item):
-        from ..item import Item, GlobalItem, LocalItem, UsagePage, Usage
-        from ...util import NamedConstant
+        from ..item import Item, GlobalItem, LocalItem
         from ...usage import Usage
 
         if item.kind == Item.Local and item.tag in (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum):
 
-            sp, su = Usage.lookup(item.value).split()
+            if int(item.value) >> 16:
+                sp, su = Usage.lookup(item.value).split()
 
-            if self.page is None or self.page != int(sp):
-                self.page = int(sp)
-                self.stream.append(UsagePage(sp))
+                self.pageSet(sp)
 
-            item = Item.itemclass(item.kind, item.tag)(su)
+                item = Item.itemclass(item.kind, item.tag)(su)
 
-        self.stream.append(item)
+            elif self.inPage is not None:
+                self.pageSet(self.inPage)
+
+        elif item.kind == Item.Global and item.tag == GlobalItem.UsagePage:
+            self.inPage = item.value
+            self.pageSet(self.inPage)
+            return
 
-        if item.kind == Item.Global and item.tag == GlobalItem.UsagePage:
-            self.page = int(item.value)
+        elif item.kind == Item.Global and item.tag == GlobalItem.Push:
+            self.stack.append((self.page, self.inPage))
+
+        elif item.kind == Item.Global and item.tag == GlobalItem.Pop and self.stack:
+            self.page, self.inPage = self.stack.pop()
+
+        self.stream.append(item)
 
     def close(self):
         self.stream.close()
-- 
2.43.0


From 7cf6521758a86800e30f5a46d0892d668e421844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:18 +0000
Subject: [PATCH 13/32] fix: physical range merging

Range of previous items was never remembered, so that physical range
could be dropped where it was needed, or kept when logical range
changed.  Physical items are now emitted where they are used, if their
meaning changed since last use.
---
 hrdc/stream/optimizer/physical_merge.py | 84 ++++++++++++++-----------
 1 file changed, 46 insertions(+), 38 deletions(-)

diff --git a/hrdc/stream/optimizer/physical_merge.py b/hrdc/stream/optimizer/physical_merge.py
index 19b38e0..4b0bace 100644
--- a/hrdc/stream/optimizer/physical_merge.py
+++ b/hrdc/stream/optimizer/physical_merge.py
@@ -4,50 +4,58 @@ class PhysicalMerge(Optimizer):
     precedence = 50
 
     def __init__(self, stream):
-        from ..item import Item, GlobalItem,\
-             LogicalMaximum, LogicalMinimum,\
-             PhysicalMaximum, PhysicalMinimum
+        from ..item import GlobalItem
 
         self.stream = stream
+        # Values as set in input stream
         self.current = {
-            GlobalItem.LogicalMinimum: LogicalMinimum(0),
-            GlobalItem.LogicalMaximum: LogicalMaximum(0),
-            GlobalItem.PhysicalMinimum: PhysicalMinimum(0),
-            GlobalItem.PhysicalMaximum: PhysicalMaximum(0),
+            GlobalItem.LogicalMinimum: 0,
+            GlobalItem.LogicalMaximum: 0,
+            GlobalItem.PhysicalMinimum: 0,
+            GlobalItem.PhysicalMaximum: 0,
             }
-        self.changed = dict(list(self.current.items()))
-        self.pending = []
+        # Physical range as set in output stream
+        self.physical = 0, 0
+        self.stack = []
 
     def append(self, item):
-        from ..item import Item, GlobalItem, PhysicalMinimum, PhysicalMaximum
-
-        if item.kind == Item.Main:
-            if int(self.current[GlobalItem.PhysicalMinimum].value) == 0 \
-                and int(self.current[GlobalItem.PhysicalMaximum].value) == 0 \
-                and int(self.changed[GlobalItem.PhysicalMinimum].value) \
-                == int(self.changed[GlobalItem.LogicalMinimum].value) \
-                and int(self.changed[GlobalItem.PhysicalMaximum].value) \
-                == int(self.changed[GlobalItem.LogicalMaximum].value):
-                self.pending = [x for x in self.pending
-                                if x.kind != Item.Global
-                                or x.tag not in (GlobalItem.PhysicalMinimum,
-                                                  GlobalItem.PhysicalMaximum)]
-            for i in self.pending:
-                self.stream.append(i)
-            self.pending = []
-            self.changed = dict(list(self.current.items()))
-            self.stream.append(item)
-        else:
-            self.pending.append(item)
-
-            if item.kind == Item.Global \
-                   and item.tag in (GlobalItem.LogicalMinimum,
-                                    GlobalItem.LogicalMaximum,
-                                    GlobalItem.PhysicalMinimum,
-                                    GlobalItem.PhysicalMaximum):
-                self.changed[item.tag] = item
+        from ..item import Item, MainItem, GlobalItem
+
+        if item.kind == Item.Global:
+            if item.tag in self.current:
+                self.current[item.tag] = int(item.value)
+                if item.tag in (GlobalItem.PhysicalMinimum,
+                                GlobalItem.PhysicalMaximum):
+                    # Postponed until there is a data item using it
+                    return
+            elif item.tag == GlobalItem.Push:
+                self.stack.append((dict(self.current), self.physical))
+            elif item.tag == GlobalItem.Pop and self.stack:
+                self.current, self.physical = self.stack.pop()
+
+        elif item.kind == Item.Main \
+                 and item.tag in (MainItem.Input, MainItem.Output, MainItem.Feature):
+            self.flush()
+
+        self.stream.append(item)
+
+    def flush(self):
+        from ..item import GlobalItem, PhysicalMinimum, PhysicalMaximum
+
+        logical = self.current[GlobalItem.LogicalMinimum], \
+                  self.current[GlobalItem.LogicalMaximum]
+        physical = self.current[GlobalItem.PhysicalMinimum], \
+                   self.current[GlobalItem.PhysicalMaximum]
+
+        # Null range takes logical values
+        if physical == logical:
+            physical = 0, 0
+
+        if physical != self.physical:
+            self.stream.append(PhysicalMinimum(physical[0]))
+            self.stream.append(PhysicalMaximum(physical[1]))
+            self.physical = physical
 
     def close(self):
-        for i in self.pending:
-            self.stream.append(i)
+        self.flush()
         self.stream.close()
-- 
2.43.0


From 162de3096c9a9233e7b1622ed9d08313b13ff9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:57 +0000
Subject: [PATCH 14/32] fix: only merge data items whose local items stay
 attached

Merging items that do not all have exactly one usage, designator or
string gave them to the wrong element, merging arrays mixed their
usages, and Push, Pop and end of stream lost track of report count.
---
 hrdc/stream/optimizer/main_merge.py | 52 +++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/hrdc/stream/optimizer/main_merge.py b/hrdc/stream/optimizer/main_merge.py
index 602920c..e72406b 100644
--- a/hrdc/stream/optimizer/main_merge.py
+++ b/hrdc/stream/optimizer/main_merge.py
@@ -22,6 +22,9 @@ class MainMerge(Optimizer):
         self.afterMain = []
         self.beforeCount = 0
         self.afterCount = 0
+        self.locals = []
+        self.mainLocals = None
+        self.stack = []
         
         self.props = {}
         
@@ -33,6 +36,7 @@ class MainMerge(Optimizer):
 
         if item.kind == Item.Local:
             self.afterMain.append(item)
+            self.locals.append(item)
 
         elif item.kind == Item.Global:
             self.afterMain.append(item)
@@ -45,13 +49,26 @@ class MainMerge(Optimizer):
             if item.tag == GlobalItem.ReportCount:
                 self.afterCount = item.value
 
+            if item.tag == GlobalItem.Push:
+                self.stack.append((dict(self.props), self.afterCount))
+                self.flush()
+
+            if item.tag == GlobalItem.Pop and self.stack:
+                self.props, self.afterCount = self.stack.pop()
+                self.flush()
+
         else:
+            locals = self.mergeableLocals(item)
+            self.locals = []
+
             if item.tag not in (MainItem.Input, MainItem.Output, MainItem.Feature):
                 self.afterMain.append(item)
                 self.flush()
                 return
 
-            if self.mainItems and item != self.mainItems[0]:
+            if self.mainItems and (item != self.mainItems[0]
+                                   or locals is None
+                                   or locals != self.mainLocals):
                 self.flush()
 
             flush_after = self.afterCount != 1
@@ -60,10 +77,35 @@ class MainMerge(Optimizer):
             self.beforeCount += self.afterCount
             self.afterMain = []
             self.mainItems.append(item)
+            self.mainLocals = locals
 
             if flush_after:
                 self.flush()
 
+    def mergeableLocals(self, item):
+        """
+        Retrieve which local items apply to a data item.  Two data
+        items may only be merged when they both have the same ones, so
+        that they stay attached to the right element.
+
+        Returns None if item cannot be merged at all.
+        """
+        from ..item import LocalItem, DataItem
+
+        tags = sorted(int(i.tag) for i in self.locals)
+
+        if item.value & DataItem.BufferedBytes:
+            return None
+        if tags and not item.value & DataItem.Variable:
+            return None
+        if len(set(tags)) != len(tags):
+            return None
+        if not set(tags) <= set([int(LocalItem.Usage),
+                                 int(LocalItem.DesignatorIndex),
+                                 int(LocalItem.StringIndex)]):
+            return None
+        return tags
+
     def flush(self, until = 0):
         from ..item import ReportCount, Item, MainItem, GlobalItem
 
@@ -81,10 +123,6 @@ class MainMerge(Optimizer):
         self.beforeCount = 0
 
     def close(self):
-        for i in self.beforeMain:
-            self.stream.append(i)
-        for i in self.mainItems:
-            self.stream.append(i)
-        for i in self.afterMain:
-            self.stream.append(i)
+        self.flush()
+        self.flush()
         self.stream.close()
-- 
2.43.0


From ccaf6e88be3644385c63ecae95e029dce5a54c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:57 +0000
Subject: [PATCH 15/32] fix: account for all elements of a value when aligning
 next ones

---
 hrdc/descriptor/streamer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index e9d70e3..5bf7511 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -89,7 +89,7 @@ class Streamer(descriptor.Visitor):
 
             a(item.ReportCount(e.count))
             a(item.ReportSize(e.size))
-            self.report_size[int(e.way)][self.report_id] += int(e.size)
+            self.report_size[int(e.way)][self.report_id] += int(e.size) * int(e.count)
             a(item.Item.itemclass(item.Item.Main, e.way)(e.flags))
 
             if e.namedArray and not constant and e.usage:
-- 
2.43.0


From 78fb5fe60ad1862d03ecc3a402596e43c5d682b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:57 +0000
Subject: [PATCH 16/32] fix: values after a nested report belong to the
 enclosing one

---
 hrdc/descriptor/streamer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index 5bf7511..6e277f9 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -12,11 +12,13 @@ class Streamer(descriptor.Visitor):
             int(item.MainItem.Feature) : [0] * 256,
             }
         self.report_id = 0
+        self.outer_ids = []
 
     def enter(self, e):
         a = self.stream.append
 
         if isinstance(e, descriptor.Report):
+            self.outer_ids.append(self.report_id)
             self.report_id = e.id
             if e.id:
                 a(item.ReportID(e.id))
@@ -28,7 +30,13 @@ class Streamer(descriptor.Visitor):
     def leave(self, e):
         a = self.stream.append
 
-        if isinstance(e, descriptor.Collection):
+        if isinstance(e, descriptor.Report):
+            outer_id = self.outer_ids.pop()
+            if outer_id:
+                self.report_id = outer_id
+                a(item.ReportID(outer_id))
+
+        elif isinstance(e, descriptor.Collection):
             a(item.EndCollection())
 
     def element(self, e):
-- 
2.43.0


From f63c18eaae9486e52819181c91f7bf654fa4da00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:57 +0000
Subject: [PATCH 17/32] fix: compile collections without a usage

Decompiler outputs them as such.
---
 hrdc/descriptor/streamer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index 6e277f9..406edc0 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -24,7 +24,8 @@ class Streamer(descriptor.Visitor):
                 a(item.ReportID(e.id))
 
         elif isinstance(e, descriptor.Collection):
-            a(item.Usage(e.usage))
+            if e.usage:
+                a(item.Usage(e.usage))
             a(item.Collection(e.kind))
 
     def leave(self, e):
-- 
2.43.0


From 55671d72f9cb57116a3f2ba4012f3e5522377932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:14:57 +0000
Subject: [PATCH 18/32] fix: named arrays are arrays

Named arrays with a usage were flagged as variables, for which only the
first usage of the list is relevant.  Also keep other flags.
---
 hrdc/descriptor/descriptor.py | 5 +----
 hrdc/descriptor/dumper.py     | 3 +--
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/hrdc/descriptor/descriptor.py b/hrdc/descriptor/descriptor.py
index 70a983e..2fa0c77 100644
--- a/hrdc/descriptor/descriptor.py
+++ b/hrdc/descriptor/descriptor.py
@@ -116,10 +116,7 @@ class Value(Base):
         self.count = count
 
         if namedArray:
-            if usage:
-                self.flags = self.Variable
-            else:
-                self.flags = self.Data | self.Array
+            self.flags = flags & ~self.Variable
             self.logicalMax = len(self.namedArray) + self.logicalMin - 1
 
     def accept(self, visitor):
diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 944f729..2a623f7 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -61,8 +61,7 @@ if __name__ == "__main__":
             us = Usage.lookup(e.usage) if e.usage else None
             self.write(self.indent() + "Value(Value.%s, %s, %d" % (e.way, us, e.size))
             if int(e.flags) != int(item.DataItem.Data | item.DataItem.Variable | item.DataItem.Absolute) \
-                   and not (e.namedArray and e.usage and e.flags == item.DataItem.Variable) \
-                   and not (e.namedArray and not e.usage and e.flags == item.DataItem.Data | item.DataItem.Array):
+                   and not (e.namedArray and e.flags == item.DataItem.Data | item.DataItem.Array):
                 flags = str(e.flags)
                 flags = re.sub(r"([A-Za-z]+)", r"Value.\1", flags)
                 self.write(", flags = %s" % flags)
-- 
2.43.0


From 88a88d762a979e5863816d21ae4e3d050528972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:33 +0000
Subject: [PATCH 19/32] fix: dump collections of vendor-defined or numeric kind

Collection.128 is not valid python.
---
 hrdc/descriptor/dumper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 2a623f7..2af9fbd 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -35,7 +35,8 @@ descriptor = """)
 
             self.__indent += 1
         elif isinstance(e, descriptor.Collection):
-            self.write(self.indent() + "Collection(Collection.%s, %s,\n" % (e.kind, Usage.lookup(e.usage) if e.usage is not None else None))
+            kind = "Collection.%s" % e.kind if isinstance(e.kind, NamedConstant) else "%d" % e.kind
+            self.write(self.indent() + "Collection(%s, %s,\n" % (kind, Usage.lookup(e.usage) if e.usage is not None else None))
             
             self.__indent += 1
 
-- 
2.43.0


From 87873cd5476477a20834ec6464f9b53478fcb336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:33 +0000
Subject: [PATCH 20/32] fix: handle Push and Pop while decompiling

---
 hrdc/descriptor/extractor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 93092aa..f2af1c9 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -12,6 +12,7 @@ class Extractor(Stream):
                 self.globals[int(tag)] = 0
         self.localsClear()
         self.stack = []
+        self.globalStack = []
         self.currentLevel = TopLevel()
         self.inNamedArrayCollection = False
 
@@ -66,7 +67,12 @@ class Extractor(Stream):
 
     def _append(self, i):
         if i.kind == item.Item.Global:
-            self.globals[int(i.tag)] = i.value
+            if i.tag == item.GlobalItem.Push:
+                self.globalStack.append(dict(self.globals))
+            elif i.tag == item.GlobalItem.Pop:
+                self.globals = self.globalStack.pop()
+            else:
+                self.globals[int(i.tag)] = i.value
 
         elif i.kind == item.Item.Local:
             if i.tag == item.LocalItem.Usage:
-- 
2.43.0


From a9e03240cd1a75ecb1ee40b290b22ba15d13567b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:33 +0000
Subject: [PATCH 21/32] fix: usages of several pages or ranges while
 decompiling

All usages of an item were considered to be on the last usage page,
and ranges were ignored but the last one, or if there was also a
single usage.
---
 hrdc/descriptor/extractor.py | 25 ++++++++++++++++---------
 1 file changed, 16 insertions(+), 9 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index f2af1c9..02a19f1 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -37,10 +37,12 @@ class Extractor(Stream):
     def usage(self, index = 0):
         if not self.usages:
             return None
-        u = self.usages[min((len(self.usages) - 1, int(index)))]
-        if u >> 16:
-            return u
-        return usage.Usage.lookup((self.globals[int(item.GlobalItem.UsagePage)] << 16) | u)
+        return usage.Usage.lookup(self.inPage(self.usages[min((len(self.usages) - 1, int(index)))]))
+
+    def inPage(self, u):
+        if int(u) >> 16:
+            return int(u)
+        return (int(self.globalValue(item.GlobalItem.UsagePage)) << 16) | int(u)
 
     def string(self, index = 0):
         if not self.strings:
@@ -76,7 +78,7 @@ class Extractor(Stream):
 
         elif i.kind == item.Item.Local:
             if i.tag == item.LocalItem.Usage:
-                self.usages.append(i.value)
+                self.usages.append(self.inPage(i.value))
 
             elif i.tag == item.LocalItem.DesignatorIndex:
                 self.designators.append(i.value)
@@ -85,19 +87,24 @@ class Extractor(Stream):
                 self.strings.append(i.value)
 
             else:
-                self.locals[int(i.tag)] = i.value
+                value = i.value
+                if i.tag in (item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum):
+                    value = self.inPage(value)
+                self.locals[int(i.tag)] = value
 
-        elif i.kind == item.Item.Main:
             # Expand ranges
             for min, max, target in [
                 (item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum, self.usages),
                 (item.LocalItem.DesignatorMinimum, item.LocalItem.DesignatorMaximum, self.designators),
                 (item.LocalItem.StringMinimum, item.LocalItem.StringMaximum, self.strings),
                 ]:
-                if self.locals[int(min)] is not None and self.locals[int(max)] is not None and not target:
-                    for val in range(int(self.locals[int(min)]), int(self.locals[int(max)] + 1)):
+                if self.locals[int(min)] is not None and self.locals[int(max)] is not None:
+                    for val in range(int(self.locals[int(min)]), int(self.locals[int(max)]) + 1):
                         target.append(val)
+                    self.locals[int(min)] = None
+                    self.locals[int(max)] = None
 
+        elif i.kind == item.Item.Main:
             if i.tag == item.MainItem.Collection:
                 self.enter(i.value, self.usage())
 
-- 
2.43.0


From 6b43ad913ce1e6cb4c2582d36401f2e292ef2425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:33 +0000
Subject: [PATCH 22/32] fix: keep empty collections while decompiling

---
 hrdc/descriptor/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 02a19f1..a13bda0 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -131,7 +131,7 @@ class Extractor(Stream):
 
     def leave(self, level = None):
         self.currentLevel = self.stack.pop()
-        if level:
+        if level is not None:
             self.reportIdMerge(level)
             self.currentLevel.append(level)
 
-- 
2.43.0


From 916337d0c6ef40eae572e47f83400f50814045f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:33 +0000
Subject: [PATCH 23/32] fix: keep layout of unaligned values while decompiling

Default alignment inserts some padding when compiling again.
---
 hrdc/descriptor/extractor.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index a13bda0..a9f9b4d 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -13,6 +13,7 @@ class Extractor(Stream):
         self.localsClear()
         self.stack = []
         self.globalStack = []
+        self.reportSize = {}
         self.currentLevel = TopLevel()
         self.inNamedArrayCollection = False
 
@@ -141,7 +142,13 @@ class Extractor(Stream):
             level.__report_ids |= child.__report_ids
 
     def addValue(self, v):
-        v.__report_ids = set([int(self.globalValue(item.GlobalItem.ReportID))])
+        report_id = int(self.globalValue(item.GlobalItem.ReportID))
+        v.__report_ids = set([report_id])
+        # Dont let compiler add some padding where there was none
+        offset = self.reportSize.get((int(v.way), report_id), 0)
+        if v.alignment > 1 and offset % v.alignment:
+            v.alignment = 1
+        self.reportSize[int(v.way), report_id] = offset + int(v.size) * int(v.count)
         self.currentLevel.append(v)
 
     def ended(self, root):
-- 
2.43.0


From 5cb03687108fe14908208211781208f2b4afd016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:06 +0000
Subject: [PATCH 24/32] fix: named arrays while decompiling

Collections with anything next to the named array were mixed up with
their parent, flags other than default ones were lost, and an error
message was written in the middle of the output.
---
 hrdc/descriptor/extractor.py | 76 +++++++++++++++---------------------
 1 file changed, 32 insertions(+), 44 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index a9f9b4d..585c29f 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -15,7 +15,6 @@ class Extractor(Stream):
         self.globalStack = []
         self.reportSize = {}
         self.currentLevel = TopLevel()
-        self.inNamedArrayCollection = False
 
     def localsClear(self):
         self.usages = []
@@ -110,10 +109,16 @@ class Extractor(Stream):
                 self.enter(i.value, self.usage())
 
             elif i.tag == item.MainItem.EndCollection:
-                if self.inNamedArrayCollection:
-                    self.inNamedArrayCollection = False
+                level = self.currentLevel
+                if self.isNamedArrayLevel(level) and len(level) == 1 \
+                       and isinstance(level[0], Value) and level[0].namedArray \
+                       and not level[0].usage:
+                    # Named array with its enclosing collection
+                    level[0].usage = level.usage
+                    self.leave()
+                    self.currentLevel.append(level[0])
                 else:
-                    self.leave(self.currentLevel)
+                    self.leave(level)
 
                 if len(self.stack) == 0:
                     self.reportIdMerge(self.currentLevel)
@@ -185,65 +190,48 @@ class Extractor(Stream):
 
         return r
 
+    def isNamedArrayLevel(self, level):
+        return isinstance(level, Collection) \
+               and level.kind == Collection.Logical \
+               and level.usage is not None \
+               and usage.NAry.test(level.usage)
+
+    def isVariableNamedArray(self):
+        """Whether data item is a named array that was flagged as variable"""
+        level = self.currentLevel
+        return self.globalValue(item.GlobalItem.ReportCount) == 1 \
+               and len(self.usages) > 1 \
+               and (self.isNamedArrayLevel(level)
+                    or (isinstance(level, Collection) and level.kind == Collection.NamedArray))
+
     def handleDataItem(self, i):
         if i.value & item.DataItem.Constant:
             self.addValue(Padding(i.tag, self.globalValue(item.GlobalItem.ReportSize)
                                           * self.globalValue(item.GlobalItem.ReportCount)))
 
-        elif (self.globalValue(item.GlobalItem.ReportCount) == 1
-              and len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
-                                       - self.globalValue(item.GlobalItem.LogicalMinimum) + 1)
-              and ((i.value == item.DataItem.Variable
-                    and self.currentLevel.kind == Collection.NamedArray)
-                   or (i.value == item.DataItem.Array
-                       and self.currentLevel.kind == Collection.Logical
-                       and usage.NAry.test(self.currentLevel.usage))
-                   or (self.currentLevel.kind == Collection.Logical
-                       and usage.NAry.test(self.currentLevel.usage)))):
-
-            self.inNamedArrayCollection = True
-            arrayCollection = self.currentLevel
-            self.leave()
-            assert len(arrayCollection) == 0
+        # Named array, enclosing collection is handled when leaving it
+        elif not i.value & item.DataItem.BufferedBytes \
+                 and (not i.value & item.DataItem.Variable or self.isVariableNamedArray()) \
+                 and len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
+                                          - self.globalValue(item.GlobalItem.LogicalMinimum) + 1):
 
             uArray = list(map(self.usage, list(range(len(self.usages)))))
             try:
                 uArray = usage.UsageRange.from_array(uArray)
             except ValueError:
                 pass
-
             self.addValue(
-                Value(i.tag, arrayCollection.usage,
-                      self.globalValue(item.GlobalItem.ReportSize),
+                Value(i.tag, usage = None,
+                      size = self.globalValue(item.GlobalItem.ReportSize),
+                      flags = i.value,
                       logicalMin = self.globalValue(item.GlobalItem.LogicalMinimum),
                       namedArray = uArray,
                       designator = self.designator(),
                       string = self.string(),
+                      count = self.globalValue(item.GlobalItem.ReportCount),
                       )
                 )
 
-        # Named array without enclosing collection (like in Keyboard RD)
-        elif i.value == (item.DataItem.Data | item.DataItem.Array) and \
-                 len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
-                                      - self.globalValue(item.GlobalItem.LogicalMinimum) + 1):
-
-            uArray = list(map(self.usage, list(range(len(self.usages)))))
-            try:
-                uArray = usage.UsageRange.from_array(uArray)
-            except ValueError as e:
-                print(e)
-                pass
-            for no in range(self.globalValue(item.GlobalItem.ReportCount)):
-                self.addValue(
-                    Value(i.tag, usage = None,
-                          size = self.globalValue(item.GlobalItem.ReportSize),
-                          logicalMin = self.globalValue(item.GlobalItem.LogicalMinimum),
-                          namedArray = uArray,
-                          designator = self.designator(),
-                          string = self.string(),
-                          )
-                    )
-
         elif i.value & item.DataItem.BufferedBytes:
 
             ue = self.globalValue(item.GlobalItem.UnitExponent)
-- 
2.43.0


From 81fd760f906f626f851e81a785a81769709541f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:06 +0000
Subject: [PATCH 25/32] fix: refuse to decompile a descriptor with an
 unterminated collection

It was silently dropped from the output.
---
 hrdc/descriptor/extractor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 585c29f..e25d17c 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -156,6 +156,10 @@ class Extractor(Stream):
         self.reportSize[int(v.way), report_id] = offset + int(v.size) * int(v.count)
         self.currentLevel.append(v)
 
+    def close(self):
+        if self.stack:
+            raise ValueError("Unterminated collection")
+
     def ended(self, root):
         self.root = root
         self.root = self.reportInsert(self.root)
-- 
2.43.0


From 5a0f5e87e70f882ebee7a0e624f635b154d845f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:30:05 +0000
Subject: [PATCH 26/32] fix: refuse negative collection kinds

They were taken as an index from the end of the list of known kinds.
---
 hrdc/stream/item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index 71050a5..e0e3cea 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -220,7 +220,7 @@ class Collection(MainItem):
     _rev = [Physical, Application, Logical, Report, NamedArray, UsageSwitch, UsageModifier]
 
     def __init__(self, value):
-        if not isinstance(value, NamedConstant) and int(value) < len(self._rev):
+        if not isinstance(value, NamedConstant) and 0 <= int(value) < len(self._rev):
             value = self._rev[int(value)]
         MainItem.__init__(self, value)
 
-- 
2.43.0


From c4fe0061e9dd58afaceb75fffad4be5b0685e404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:03 +0000
Subject: [PATCH 27/32] fix: name usages after the page restored by Pop

Listings named them after the page in force before Pop.
---
 hrdc/stream/parser/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hrdc/stream/parser/base.py b/hrdc/stream/parser/base.py
index 7411b9d..2eddeb7 100644
--- a/hrdc/stream/parser/base.py
+++ b/hrdc/stream/parser/base.py
@@ -21,6 +21,7 @@ class Parser(Stream, metaclass = _ParserMeta):
         self.input = input
         self.output = output
         self.usagePage = 0
+        self.usagePageStack = []
 
     def blobParse(self, blob):
         while blob:
@@ -40,6 +41,12 @@ class Parser(Stream, metaclass = _ParserMeta):
             self.usagePage = int(i.value)
             i = item.UsagePage(usage.Usage.page(i.value))
 
+        if i.kind == item.Item.Global and i.tag == item.GlobalItem.Push:
+            self.usagePageStack.append(self.usagePage)
+
+        if i.kind == item.Item.Global and i.tag == item.GlobalItem.Pop and self.usagePageStack:
+            self.usagePage = self.usagePageStack.pop()
+
         if i.kind == item.Item.Local \
                and i.tag in (item.LocalItem.Usage, item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum) \
                and (int(i.value) >> 16) == 0:
-- 
2.43.0


From 00d3050183e95d585756c1b621628a31b6324e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:21 +0000
Subject: [PATCH 28/32] fix: indexing of usage ranges stops at their ends

---
 hrdc/usage/usage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/usage/usage.py b/hrdc/usage/usage.py
index 2211ad2..3977094 100644
--- a/hrdc/usage/usage.py
+++ b/hrdc/usage/usage.py
@@ -78,7 +78,7 @@ class UsageRange:
         return int(self.max) - int(self.min) + 1
 
     def __getitem__(self, no):
-        return Usage.lookup(int(self.min) + no)
+        return Usage.lookup(range(int(self.min), int(self.max) + 1)[no])
 
     def __iter__(self):
         for i in range(int(self.min), int(self.max) + 1):
-- 
2.43.0


From 0ccbe81cb83e46fbd01358cdd08c4c63429af693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:26 +0000
Subject: [PATCH 29/32] fix: refuse code listings with values that are not
 separated

---
 hrdc/stream/parser/code.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hrdc/stream/parser/code.py b/hrdc/stream/parser/code.py
index 6711a30..6ef004c 100644
--- a/hrdc/stream/parser/code.py
+++ b/hrdc/stream/parser/code.py
@@ -5,7 +5,10 @@ class Code(Parser):
     def read(self, *args):
         contents = self.input.read(*args)
         contents = re.sub(r"//[^\n]*|/\*.*?\*/", " ", contents, flags = re.DOTALL)
-        contents = re.sub(r"\s+", "", contents)
-        blob = bytes(int(x, 16) for x in contents.split(",") if x)
+        tokens = [x.strip() for x in contents.split(",")]
+        for x in tokens:
+            if x and not re.fullmatch(r"(?:0[xX])?[0-9a-fA-F]+", x):
+                raise ValueError("Not a byte value: %r" % x)
+        blob = bytes(int(x, 16) for x in tokens if x)
         self.blobParse(blob)
             
-- 
2.43.0


From b5f2561457784b83f1753fd3e7c5c83827c348bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:00 +0000
Subject: [PATCH 30/32] fix: upper case prefixes in hex listings

---
 hrdc/stream/parser/hex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/stream/parser/hex.py b/hrdc/stream/parser/hex.py
index c2424f4..dc03c23 100644
--- a/hrdc/stream/parser/hex.py
+++ b/hrdc/stream/parser/hex.py
@@ -4,6 +4,6 @@ import re
 class Hex(Parser):
     def read(self, *args):
         contents = self.input.read(*args)
-        blob = bytes(int(x, 16) for x in re.findall(r"\b(?:0x)?[0-9A-Fa-f]{2}\b", contents))
+        blob = bytes(int(x, 16) for x in re.findall(r"\b(?:0[xX])?[0-9A-Fa-f]{2}\b", contents))
         self.blobParse(blob)
             
-- 
2.43.0


From a7f1abba14e7cb731be984ec958234a06f6663e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:45:48 +0000
Subject: [PATCH 31/32] fix: keep data items after last collection when
 decompiling

---
 hrdc/descriptor/extractor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index e25d17c..ee6f046 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -159,6 +159,9 @@ class Extractor(Stream):
     def close(self):
         if self.stack:
             raise ValueError("Unterminated collection")
+        # There may be data items after last collection
+        self.reportIdMerge(self.currentLevel)
+        self.ended(self.currentLevel)
 
     def ended(self, root):
         self.root = root
-- 
2.43.0


From f07f70dde34ce18845d403117d97acf914b80339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:02 +0000
Subject: [PATCH 32/32] fix: dump usages of vendor pages as numbers

Dumped scripts only import the modules of hrdc.usage, so that arcade
constants were undefined names in them.
---
 hrdc/descriptor/dumper.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 2af9fbd..d6b61e2 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -19,6 +19,11 @@ class Dumper(descriptor.Visitor):
     def indent(self, offset = 0):
         return " " * ((self.__indent + offset) * 4)
 
+    def usage(self, u):
+        u = Usage.lookup(u)
+        # Modules of vendor pages are not imported by script
+        return hex(int(u)) if int(u) >> 24 == 0xff else u
+
     def enter(self, e):
         if self.__indent == 0:
             self.write("""from hrdc.usage import *
@@ -36,7 +41,7 @@ descriptor = """)
             self.__indent += 1
         elif isinstance(e, descriptor.Collection):
             kind = "Collection.%s" % e.kind if isinstance(e.kind, NamedConstant) else "%d" % e.kind
-            self.write(self.indent() + "Collection(%s, %s,\n" % (kind, Usage.lookup(e.usage) if e.usage is not None else None))
+            self.write(self.indent() + "Collection(%s, %s,\n" % (kind, self.usage(e.usage) if e.usage is not None else None))
             
             self.__indent += 1
 
@@ -59,7 +64,7 @@ if __name__ == "__main__":
             self.write(self.indent() + "Padding(Value.%s, %d)," % (e.way, e.size)+"\n")
 
         elif isinstance(e, descriptor.Value):
-            us = Usage.lookup(e.usage) if e.usage else None
+            us = self.usage(e.usage) if e.usage else None
             self.write(self.indent() + "Value(Value.%s, %s, %d" % (e.way, us, e.size))
             if int(e.flags) != int(item.DataItem.Data | item.DataItem.Variable | item.DataItem.Absolute) \
                    and not (e.namedArray and e.flags == item.DataItem.Data | item.DataItem.Array):
@@ -70,11 +75,12 @@ if __name__ == "__main__":
             if e.logicalMin != 1:
                 self.write(", logicalMin = %s" % e.logicalMin)
             if isinstance(e.namedArray, UsageRange):
-                self.write(", namedArray = %s" % e.namedArray)
+                self.write(", namedArray = %s" % UsageRange(self.usage(e.namedArray.min),
+                                                            self.usage(e.namedArray.max)))
             elif e.namedArray != None:
                 self.write(", namedArray = [\n")
                 for u in e.namedArray:
-                    self.write(self.indent(1) + str(u) + ",\n")
+                    self.write(self.indent(1) + str(self.usage(u)) + ",\n")
                 self.write(self.indent(1) + "]")
             else:
                 if e.logicalMax != None:
-- 
2.43.0

