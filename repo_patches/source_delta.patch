From e7abba17b2b9e7fb95278f91a431dc6fb3b1ca43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:49 +0000
Subject: [PATCH 01/39] fix: roll back failed disk operations from a copy
 instead of a view

begin_transaction saved numpy views of the live arrays, so rolling back
assigned the (already modified) data to itself.
---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index b40d00e..341fe64 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -322,7 +322,7 @@ class DiskImageBase(Bootable):
     # file writing methods
 
     def begin_transaction(self):
-        state = self.bytes[:], self.style[:]
+        state = self.bytes[:].copy(), self.style[:].copy()
         return state
 
     def rollback_transaction(self, state):
-- 
2.43.0


From 52451a91a20c4517569907c65f6e94966643080b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:49 +0000
Subject: [PATCH 02/39] fix: roll back disk operations that fail with any
 exception

A write that fails on, e.g., a file name that can't be encoded left the
VTOC marking sectors as used that belong to no file.
---
 atrcopy/diskimages.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 341fe64..6eb2409 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -353,7 +353,7 @@ class DiskImageBase(Bootable):
             self.write_sector_list(sector_list)
             self.write_sector_list(vtoc)
             self.write_sector_list(directory)
-        except errors.AtrError:
+        except Exception:
             self.rollback_transaction(state)
             raise
         finally:
@@ -387,7 +387,7 @@ class DiskImageBase(Bootable):
             directory.remove_dirent(self, dirent, vtoc, sector_list)
             self.write_sector_list(vtoc)
             self.write_sector_list(directory)
-        except errors.AtrError:
+        except Exception:
             self.rollback_transaction(state)
             raise
         finally:
@@ -400,7 +400,7 @@ class DiskImageBase(Bootable):
             for sector_num, pos, size in vtoc.iter_free_sectors():
                 if _xd: log.debug("shredding: sector %s at %d, fill value=%d" % (sector_num, pos, fill_value))
                 self.bytes[pos:pos + size] = fill_value
-        except errors.AtrError:
+        except Exception:
             self.rollback_transaction(state)
             raise
         finally:
-- 
2.43.0


From 299bdfbd0cd6e8a8bf552159a92354fea9f9dfb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:49 +0000
Subject: [PATCH 03/39] fix: limit the Atari DOS directory to 64 entries

The 65th entry was written past the end of the directory into the first
data sector and its file number didn't fit in the sector link bytes.
---
 atrcopy/ataridos.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 5b17b8a..3c7ecfb 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -48,6 +48,10 @@ class AtariDosVTOC(VTOC):
 
 
 class AtariDosDirectory(Directory):
+    def __init__(self, header, num_dirents=64, sector_class=WriteableSector):
+        # file number is stored in 6 bits in each data sector
+        Directory.__init__(self, header, num_dirents, sector_class)
+
     @property
     def dirent_class(self):
         return AtariDosDirent
-- 
2.43.0


From e03de8e9fa80ed9676e46ac8ca55ed4f4b3c6c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:49 +0000
Subject: [PATCH 04/39] fix: store and read zero length files

An empty file was given no sectors, so its directory entry had an invalid
starting sector and the disk image could not be parsed anymore; reading an
empty file returned the contents of the whole disk image.
---
 atrcopy/diskimages.py | 2 +-
 atrcopy/segments.py   | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 6eb2409..bbc33f3 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -363,7 +363,7 @@ class DiskImageBase(Bootable):
         data = to_numpy(data)
         sectors = BaseSectorList(self.header)
         index = 0
-        while index < len(data):
+        while index < len(data) or len(sectors) == 0:
             count = min(self.header.payload_bytes, len(data) - index)
             sector = self.header.create_sector(data[index:index + count])
             sectors.append(sector)
diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 403348b..3b12417 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1108,6 +1108,9 @@ class EmptySegment(DefaultSegment):
     def __len__(self):
         return 0
 
+    def tobytes(self):
+        return b""
+
 
 class ObjSegment(DefaultSegment):
     extra_serializable_attributes = ['metadata_start', 'data_start']
-- 
2.43.0


From 95a524f79d352017e405d2a9e61f5299aa9d0092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:49 +0000
Subject: [PATCH 05/39] fix: position of the short boot sectors in double
 density images

---
 atrcopy/ataridos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 3c7ecfb..169ae80 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -421,7 +421,7 @@ class AtrHeader(BaseHeader):
         if not self.sector_is_valid(sector):
             raise errors.ByteNotInFile166("Sector %d out of range" % sector)
         if sector <= self.num_initial_sectors:
-            pos = self.num_initial_sectors * (sector - 1)
+            pos = self.initial_sector_size * (sector - 1)
             size = self.initial_sector_size
         else:
             pos = self.num_initial_sectors * self.initial_sector_size + (sector - 1 - self.num_initial_sectors) * self.sector_size
-- 
2.43.0


From 5799a14cdd9b13a7145cee49b23a40170f7e3879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:49 +0000
Subject: [PATCH 06/39] fix: NameError when a sector is out of range

---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index bbc33f3..180402b 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -68,7 +68,7 @@ class BaseHeader:
         order starting from the beginning of the raw data.
         """
         if not self.sector_is_valid(sector):
-            raise ByteNotInFile166("Sector %d out of range" % sector)
+            raise errors.ByteNotInFile166("Sector %d out of range" % sector)
         pos = sector * self.sector_size + self.header_offset
         size = self.sector_size
         return pos, size
-- 
2.43.0


From 9c2aee99b897ad8188219d4c45a526aa1d92439e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:49 +0000
Subject: [PATCH 07/39] fix: UnboundLocalError getting base indexes of indexed
 segment data

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 3b12417..4ddab4d 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -295,7 +295,7 @@ class SegmentData:
         indexed.
         """
         if self.is_indexed:
-            return np.copy(self.order[i])
+            return np.copy(self.order)
         if self.data.base is None:
             i = 0
         else:
-- 
2.43.0


From e7c1257ad592c0aeadaaaf1a7ff3839042e4d153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:49 +0000
Subject: [PATCH 08/39] fix: allow a container segment to be resized more than
 once

np.resize returns a view of a temporary, so after the first resize the
container looked like a view of some other segment.
---
 atrcopy/segments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 4ddab4d..413de6a 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -179,8 +179,8 @@ class SegmentData:
     def resize(self, newsize):
         if self.data.base is None:
             try:
-                newdata = np.resize(self.data, (newsize,))
-                newstyle = np.resize(self.style, (newsize,))
+                newdata = np.resize(self.data, (newsize,)).copy()
+                newstyle = np.resize(self.style, (newsize,)).copy()
             except:
                 raise
             else:
-- 
2.43.0


From 8fabce23df4e09ebc8e1940e999631a4f400df3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:49 +0000
Subject: [PATCH 09/39] fix: KBoot boot image ignored the run address

---
 atrcopy/kboot.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/kboot.py b/atrcopy/kboot.py
index 010d74a..d602f03 100644
--- a/atrcopy/kboot.py
+++ b/atrcopy/kboot.py
@@ -69,7 +69,7 @@ class KBootImage(AtariDosDiskImage):
 
     @classmethod
     def create_boot_image(cls, segments, run_addr=None):
-        data_segment, _ = get_xex(segments)
+        data_segment, _ = get_xex(segments, run_addr)
         payload_bytes = add_xexboot_header(data_segment.data)
         data_bytes = np.zeros(len(payload_bytes) + 16, np.uint8)
         data_bytes[16:] = payload_bytes[:]
-- 
2.43.0


From ae23e1afe4ab9920680c84f7ff0bd28c86066df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:49 +0000
Subject: [PATCH 10/39] fix: save the disk image when any of the added files
 was copied

Only the outcome of the last file decided whether the image was saved.
---
 atrcopy/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 76beb62..58df276 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -154,7 +154,8 @@ def add_files(image, files):
         with open(name, "rb") as fh:
             data = fh.read()
         name = os.path.basename(name)
-        changed = save_file(image, name, filetype, data)
+        if save_file(image, name, filetype, data):
+            changed = True
     if changed:
         image.save()
 
-- 
2.43.0


From 24361d63699dcf2c461ae439c46f587ae447097c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:29 +0000
Subject: [PATCH 11/39] fix: endless loop reading a MyDOS file with a circular
 sector chain

---
 atrcopy/ataridos.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 169ae80..1a5f92d 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -243,7 +243,11 @@ class MydosDirent(AtariDosDirent):
     def process_raw_sector(self, image, raw):
         # No file number stored in the sector data; two full bytes available
         # for next sector
-        self.current_sector = (raw[-3] << 8) + raw[-2]
+        self.sectors_seen.add(self.current_sector)
+        next_sector = (raw[-3] << 8) + raw[-2]
+        if next_sector in self.sectors_seen:
+            raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
+        self.current_sector = next_sector
         num_bytes = raw[-1]
         return raw[0:num_bytes], num_bytes
 
-- 
2.43.0


From 8a86a108b6f4103ba2b4afe94e9368ef8fbfc8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:29 +0000
Subject: [PATCH 12/39] fix: endless loop reading a DOS 3.3 file with a
 circular track/sector list

---
 atrcopy/dos33.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index b1c4c15..63240ec 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -297,8 +297,12 @@ class Dos33Dirent(Dirent):
         tslist = BaseSectorList(image.header)
         sector_num = image.header.sector_from_track(self.track, self.sector)
         sector_map = []
+        sectors_seen = set()
         while sector_num > 0:
             image.assert_valid_sector(sector_num)
+            if sector_num in sectors_seen:
+                raise errors.InvalidFile("Bad track/sector list: attempting to reread sector %d" % sector_num)
+            sectors_seen.add(sector_num)
             if _xd: log.debug("reading track/sector list at %d for %s" % (sector_num, self))
             data, _ = image.get_sectors(sector_num)
             sector = Dos33TSSector(image.header, data=data)
-- 
2.43.0


From 0dfc76a1f9d33ec5b7b90ea9c4cdf75a5190775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:29 +0000
Subject: [PATCH 13/39] fix: endless loop parsing a DOS 3.3 image with a
 circular catalog

---
 atrcopy/dos33.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 63240ec..ca8e281 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -465,8 +465,12 @@ class Dos33DiskImage(DiskImageBase):
         sector = self.header.first_directory
         num = 0
         files = []
+        sectors_seen = set()
         while sector > 0:
             self.assert_valid_sector(sector)
+            if sector in sectors_seen:
+                raise errors.InvalidDiskImage("Bad catalog: attempting to reread sector %d" % sector)
+            sectors_seen.add(sector)
             if _xd: log.debug("reading catalog sector: %d" % sector)
             values, style = self.get_sectors(sector)
             sector = self.header.sector_from_track(values[1], values[2])
-- 
2.43.0


From e4c521f5717701b86a2bb52722644da2bc210763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:29 +0000
Subject: [PATCH 14/39] fix: endless loop reading a SpartaDOS file with a
 circular sector map

---
 atrcopy/spartados.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/spartados.py b/atrcopy/spartados.py
index abd749d..5a13d97 100644
--- a/atrcopy/spartados.py
+++ b/atrcopy/spartados.py
@@ -209,7 +209,11 @@ class SpartaDosDiskImage(AtariDosDiskImage):
 
     def get_sector_map(self, sector):
         m = None
+        sectors_seen = set()
         while sector > 0:
+            if sector in sectors_seen:
+                raise errors.InvalidFile("Bad sector map: attempting to reread sector %d" % sector)
+            sectors_seen.add(sector)
             b, _ = self.get_sectors(sector)
             sector, prev = b[0:4].view(dtype='<u2')
             if m is None:
-- 
2.43.0


From 176a86b32d785c7ee20abd44e7550a6e4404e433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:43 +0000
Subject: [PATCH 15/39] fix: IndexError parsing DOS 3.3 image whose VTOC claims
 more sectors than it has

---
 atrcopy/dos33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index ca8e281..7b56b76 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -454,7 +454,7 @@ class Dos33DiskImage(DiskImageBase):
         if self.header.sector_size != 256:
             log.warning(f"Nonstandard sector size {self.header.sector_size}; this is likely an error, setting to 256")
             self.header.sector_size = 256
-        self.header.max_sectors = int(values['num_tracks']) * int(values['sectors_per_track'])
+        self.header.max_sectors = min(int(values['num_tracks']) * int(values['sectors_per_track']), self.header.image_size // self.header.sector_size)
         self.header.ts_pairs = int(values['max_pairs'])
         self.header.dos_release = values['dos_release']
         self.header.last_track_num = values['last_track']
-- 
2.43.0


From 872a6d3437a11034ce5c3cf0a728a87943a14162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:43 +0000
Subject: [PATCH 16/39] fix: report corrupt gzip data as an invalid container

---
 atrcopy/container.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/atrcopy/container.py b/atrcopy/container.py
index dbb8f66..059cc51 100644
--- a/atrcopy/container.py
+++ b/atrcopy/container.py
@@ -2,6 +2,7 @@ import gzip
 import bz2
 import lzma
 import io
+import zlib
 
 import numpy as np
 
@@ -55,7 +56,7 @@ class GZipContainer(DiskImageContainer):
             buf = io.BytesIO(byte_data)
             with gzip.GzipFile(mode='rb', fileobj=buf) as f:
                 unpacked = f.read()
-        except OSError as e:
+        except (OSError, zlib.error) as e:
             raise errors.InvalidContainer(e)
         return unpacked
 
-- 
2.43.0


From 52d5adcc0704cd2a5735d19c337efccdcfc19eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:43 +0000
Subject: [PATCH 17/39] fix: load address of right slot 4 KB cartridges

---
 atrcopy/cartridge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/cartridge.py b/atrcopy/cartridge.py
index 4a822d8..2908b24 100644
--- a/atrcopy/cartridge.py
+++ b/atrcopy/cartridge.py
@@ -26,7 +26,7 @@ known_cart_types = [
     (0,  "", 0,),
     (57, "Standard 2 KB", 2, 2, 0, 0xb800),
     (58, "Standard 4 KB", 4, 4, 0, 0xb000),
-    (59, "Right slot 4 KB", 4, 4, 0, 0, 0x9000),
+    (59, "Right slot 4 KB", 4, 4, 0, 0x9000),
     (1,  "Standard 8 KB", 8, 8, 0, 0xa000),
     (21, "Right slot 8 KB", 8,),
     (2,  "Standard 16 KB", 16, 16, 0, 0x8000),
-- 
2.43.0


From 359b9be0cfcace174dbbfe9bf26aacac9cbd89e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:43 +0000
Subject: [PATCH 18/39] fix: restore an indexed segment that contains no bytes
 as empty

An empty order list was ignored, so the segment was restored as a view of
the entire base array.
---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 413de6a..e7a4a2d 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -536,7 +536,7 @@ class DefaultSegment:
         r = rawdata[start:end]
         delattr(self, '_rawdata_bounds')
         try:
-            if self._order_list:
+            if self._order_list is not None:
                 order = to_numpy_list(self._order_list)
                 r = r.get_indexed(order)
                 delattr(self, '_order_list')
-- 
2.43.0


From b17712784ddd51b31b37ca03c64dc2418a6cd600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:43 +0000
Subject: [PATCH 19/39] fix: TypeError getting the parallel data of an indexed
 segment

---
 atrcopy/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index e7a4a2d..96eb04c 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -550,7 +550,7 @@ class DefaultSegment:
         start, end = other.byte_bounds_offset()
         r = self.rawdata[start:end]
         if other.rawdata.is_indexed:
-            r = r.get_indexed[other.order]
+            r = r.get_indexed(other.rawdata.order)
         return r
 
     def serialize_session(self, mdict):
-- 
2.43.0


From 82761c1ee2150d97dfc5bd2a8e842ad2d3ccd421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:18 +0000
Subject: [PATCH 20/39] fix: TypeError converting a disk image to the ATR
 format

---
 atrcopy/ataridos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 1a5f92d..274cdb9 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -499,7 +499,7 @@ class AtariDosDiskImage(DiskImageBase):
         """
         first_data = len(self.header)
         raw = self.rawdata[first_data:]
-        data = add_atr_header(raw)
+        data = add_atr_header(raw.get_data())
         newraw = SegmentData(data)
         image = self.__class__(newraw)
         return image
-- 
2.43.0


From 9bfadfa6e2011a8e455a2c943b3b4e5518e4de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:14 +0000
Subject: [PATCH 21/39] fix: keep file names in the Atari DOS directory padded
 with spaces

Adding or deleting any file rewrote all the other directory entries with
NUL padded names, which Atari DOS itself doesn't match.
---
 atrcopy/ataridos.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 274cdb9..e0f28c2 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -163,8 +163,9 @@ class AtariDosDirent(Dirent):
         values[0] = flag
         values[1] = self.num_sectors
         values[2] = self.starting_sector
-        values[3] = self.basename
-        values[4] = self.ext
+        # names are padded with spaces, not the NULs that numpy would supply
+        values[3] = self.basename.ljust(8)
+        values[4] = self.ext.ljust(3)
         return data
 
     def mark_deleted(self):
-- 
2.43.0


From 1a5f6a83d6a8f6c4667c783f7a08aa5634db1c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:14 +0000
Subject: [PATCH 22/39] fix: keep DOS 3.3 files locked when the catalog is
 rewritten

The flag was parsed as 0x80 instead of a bool, so encoding it overflowed
the byte and every locked file was unlocked by adding or deleting a file.
---
 atrcopy/dos33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 7b56b76..3edbe69 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -239,7 +239,7 @@ class Dos33Dirent(Dirent):
             self.deleted = False
         self.sector = values[1]
         self._file_type = values[2] & 0x7f
-        self.locked = values[2] & 0x80
+        self.locked = (values[2] & 0x80) > 0
         self.filename = (data[3:0x20] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
         self.num_sectors = int(values[4])
         self.is_sane = self.sanity_check(image)
-- 
2.43.0


From cb83fe9c3e313b0bf995c33a866735261d3403c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:14 +0000
Subject: [PATCH 23/39] fix: last character of 30 character DOS 3.3 file names
 was lost

Only in deleted entries is the last byte of the name used for the track.
---
 atrcopy/dos33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 3edbe69..70832cf 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -240,7 +240,7 @@ class Dos33Dirent(Dirent):
         self.sector = values[1]
         self._file_type = values[2] & 0x7f
         self.locked = (values[2] & 0x80) > 0
-        self.filename = (data[3:0x20] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
+        self.filename = (data[3:0x20 if self.deleted else 0x21] - 0x80).tobytes().rstrip().decode("ascii", errors='ignore')
         self.num_sectors = int(values[4])
         self.is_sane = self.sanity_check(image)
 
-- 
2.43.0


From 43f30165ac60fa790afeee9a49e7aa8ad5c5d5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:14 +0000
Subject: [PATCH 24/39] fix: unlocked DOS 3.3 text files ended the catalog
 sector

The flag byte of an unlocked text file is zero; an unused catalog entry is
the one that also has no track number.
---
 atrcopy/dos33.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index 70832cf..f1d9874 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -477,7 +477,7 @@ class Dos33DiskImage(DiskImageBase):
             i = 0xb
             while i < 256:
                 dirent = Dos33Dirent(self, num, values[i:i+0x23])
-                if dirent.flag == 0:
+                if dirent.flag == 0 and dirent.track == 0:
                     break
                 if not dirent.is_sane:
                     log.warning("Illegally formatted directory entry %s" % dirent)
-- 
2.43.0


From 4d1d1fa9d764b10f3a16a6c1c218002548e6f942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:51 +0000
Subject: [PATCH 25/39] fix: update the Atari DOS free sector count along with
 the bitmap

The count stored in the VTOC, and displayed in the image summary, never
changed when files were added or deleted.
---
 atrcopy/ataridos.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index e0f28c2..8624f82 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -42,6 +42,7 @@ class AtariDosVTOC(VTOC):
         if _xd: log.debug("vtoc after:\n%s" % str(self))
         packed = np.packbits(self.sector_map[0:720])
         self.vtoc1[0x0a:0x64] = packed
+        self.vtoc1[3:5].view(dtype='<u2')[0] = np.count_nonzero(self.sector_map[0:720])
         s = WriteableSector(self.sector_size, self.vtoc1)
         s.sector_num = 360
         self.sectors.append(s)
-- 
2.43.0


From 2c1f8eeb501635799bfb35688e206a40beafd8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:38 +0000
Subject: [PATCH 26/39] fix: deleting a file by name found already deleted
 entries

The sectors once used by the deleted file were freed again even if they had
been given to another file in the meantime.
---
 atrcopy/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index 3bf1790..e1f4569 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -223,11 +223,11 @@ class Directory(BaseSectorList):
         if hasattr(filename, "filename"):
             # we've been passed a dirent instead of a filename
             for dirent in list(self.dirents.values()):
-                if dirent == filename:
+                if dirent.in_use and dirent == filename:
                     return dirent
         else:
             for dirent in list(self.dirents.values()):
-                if filename == dirent.filename:
+                if dirent.in_use and filename == dirent.filename:
                     return dirent
         raise errors.FileNotFound("%s not found on disk" % filename)
 
-- 
2.43.0


From 3d457b27c1350645dadb5609569e66fed7e7582d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:24 +0000
Subject: [PATCH 27/39] fix: use the last sector of the DOS 3.3 catalog

The catalog was reported full when its last sector was needed, so its
entries could not be used and an image with files in that sector refused
any change, including deletions.
---
 atrcopy/dos33.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/atrcopy/dos33.py b/atrcopy/dos33.py
index f1d9874..5051680 100644
--- a/atrcopy/dos33.py
+++ b/atrcopy/dos33.py
@@ -572,12 +572,12 @@ class Dos33DiskImage(DiskImageBase):
     def get_directory_sector_links(self, sector_num):
         if sector_num == -1:
             sector_num = self.header.first_directory
+        elif sector_num == 0:
+            raise errors.NoSpaceInDirectory("No space left in catalog")
         self.assert_valid_sector(sector_num)
         raw, _, _ = self.get_raw_bytes(sector_num)
         next_sector = self.header.sector_from_track(raw[1], raw[2])
         if _xd: log.debug("checking catalog sector %d, next catalog sector: %d" % (sector_num, next_sector))
-        if next_sector == 0:
-            raise errors.NoSpaceInDirectory("No space left in catalog")
         return sector_num, next_sector
 
     def get_file_segment(self, dirent):
-- 
2.43.0


From 35553e158abf0a8668169bf7559c5af478630166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:18:32 +0000
Subject: [PATCH 28/39] fix: start of contiguous sectors that begin at the
 start of the image

---
 atrcopy/diskimages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/diskimages.py b/atrcopy/diskimages.py
index 180402b..e2b3bf6 100644
--- a/atrcopy/diskimages.py
+++ b/atrcopy/diskimages.py
@@ -253,7 +253,7 @@ class DiskImageBase(Bootable):
         count = 0
         for index in range(sector, sector + num):
             pos, size = self.header.get_pos(index)
-            if start == 0:
+            if index == sector:
                 start = pos
             count += size
         return start, count
-- 
2.43.0


From e98e420bfdc30bc7f76c30cf1f945c85e1d954b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:33 +0000
Subject: [PATCH 29/39] fix: dry run of extract created the output directory

---
 atrcopy/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 58df276..36ef826 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -110,7 +110,7 @@ def extract_files(image, files):
         if options.lower:
             output = output.lower()
         if options.dir:
-            if not os.path.exists(options.dir):
+            if not options.dry_run and not os.path.exists(options.dir):
                 os.makedirs(options.dir)
             output = os.path.join(options.dir, output)
         if not options.dry_run:
-- 
2.43.0


From fa34bf5a346bb6704c44a3c86f5d4ef8ed5cbb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:20:33 +0000
Subject: [PATCH 30/39] fix: boot command ignored the dry run and force options

---
 atrcopy/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 36ef826..7c015c1 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -292,8 +292,12 @@ def boot_image(image_name, source_files, data_files, obj_files, run_addr=""):
     segments, run_addr = assemble_segments(source_files, data_files, obj_files, run_addr)
     if segments:
         image = image_cls.create_boot_image(segments, run_addr)
+        if os.path.exists(image_name) and not options.force:
+            print("skipping %s, use -f to overwrite" % (image_name))
+            return
         print("saving boot disk %s" % (image_name))
-        image.save(image_name)
+        if not options.dry_run:
+            image.save(image_name)
     else:
         print("No segments to save to boot disk")
 
-- 
2.43.0


From 294b400f924f16a7645494eec95c2e9f6910d74a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:03 +0000
Subject: [PATCH 31/39] fix: IndexError deleting a file that refers to a sector
 not on the disk

---
 atrcopy/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/atrcopy/utils.py b/atrcopy/utils.py
index e1f4569..f234699 100644
--- a/atrcopy/utils.py
+++ b/atrcopy/utils.py
@@ -364,5 +364,8 @@ class VTOC(BaseSectorList):
 
     def free_sector_list(self, sector_list):
         for sector in sector_list:
-            self.sector_map[sector.sector_num] = 1
+            num = sector.sector_num
+            if not self.header.sector_is_valid(num) or num >= len(self.sector_map):
+                raise errors.ByteNotInFile166("Sector %d out of range" % num)
+            self.sector_map[num] = 1
         self.calc_bitmap()
-- 
2.43.0


From 3fa4534a11b4dc267686f6a0e5b506b608a6f9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:25:48 +0000
Subject: [PATCH 32/39] fix: Apple boot image lost data of segments that share
 a page

---
 atrcopy/standard_delivery.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/atrcopy/standard_delivery.py b/atrcopy/standard_delivery.py
index ccd8622..d5d1d52 100644
--- a/atrcopy/standard_delivery.py
+++ b/atrcopy/standard_delivery.py
@@ -83,6 +83,13 @@ class StandardDeliveryImage(DiskImageBase):
                 show_hgr = True
             size = ((len(s) + padding + 255) // 256) * 256
             chunk = np.zeros([size], dtype=np.uint8)
+            # whole pages are loaded, so keep the data of earlier segments in
+            # any page shared with this one
+            for prev_start, prev_chunk, _ in chunks:
+                offset = (prev_start - chunk_start) * 256
+                first, last = max(offset, 0), min(offset + len(prev_chunk), size)
+                if first < last:
+                    chunk[first:last] = prev_chunk[first - offset:last - offset]
             chunk[padding:padding + len(s)] = s[:]
             chunks.append((chunk_start, chunk, show_hgr))
             print("segment: %s, pages=%d" % (str(s), len(chunk) // 256))
-- 
2.43.0


From e8e871a736ae25f4a124023fa3f2b72662ed156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:18 +0000
Subject: [PATCH 33/39] fix: IndexError building an executable from an indexed
 segment

---
 atrcopy/segments.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 96eb04c..093fc13 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -1052,12 +1052,12 @@ class DefaultSegment:
         return sorted([[k, v] for k, v in self.rawdata.extra.comments.items()])
 
     def iter_comments_in_segment(self):
-        start = self.origin
-        start_index = self.get_raw_index(0)
-        end_index = self.get_raw_index(len(self.rawdata))
         for k, v in self.rawdata.extra.comments.items():
-            if k >= start_index and k < end_index:
-                yield self.rawdata.get_reverse_index(k), v
+            try:
+                index = self.rawdata.get_reverse_index(k)
+            except IndexError:
+                continue
+            yield index, v
 
     def copy_user_data(self, source, index_offset=0):
         """Copy comments and other user data from the source segment to this
-- 
2.43.0


From 5cb44c2f9a30ad0052978e55777abd564ff3f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:19 +0000
Subject: [PATCH 34/39] fix: interleaving indexed segments

---
 atrcopy/segments.py | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/atrcopy/segments.py b/atrcopy/segments.py
index 093fc13..94b115d 100644
--- a/atrcopy/segments.py
+++ b/atrcopy/segments.py
@@ -333,13 +333,7 @@ class SegmentData:
         return copy
 
     def get_bases(self):
-        if self.data.base is None:
-            data_base = self.data
-            style_base = self.style
-        else:
-            data_base = self.data.base
-            style_base = self.style.base
-        return data_base, style_base
+        return self.data_base, self.style_base
 
     def get_indexed(self, index):
         index = to_numpy_list(index)
-- 
2.43.0


From edf45d9e3b00fc03bc5a60174695ed1946bb7b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:24 +0000
Subject: [PATCH 35/39] fix: plain disk images starting with zeros were
 unpacked as empty LZMA data

---
 atrcopy/container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/atrcopy/container.py b/atrcopy/container.py
index 059cc51..f7ca3ce 100644
--- a/atrcopy/container.py
+++ b/atrcopy/container.py
@@ -80,4 +80,8 @@ class LZMAContainer(DiskImageContainer):
                 unpacked = f.read()
         except lzma.LZMAError as e:
             raise errors.InvalidContainer(e)
+        if not unpacked:
+            # the legacy LZMA header has no magic number, so the zeros at the
+            # start of an uncompressed image look like an empty LZMA stream
+            raise errors.InvalidContainer("no LZMA data")
         return unpacked
-- 
2.43.0


From 39cdc150404198b9d0e8c7a30eb8c14ce119044a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:24 +0000
Subject: [PATCH 36/39] fix: TypeError creating an Apple boot image without a
 run address

---
 atrcopy/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/__init__.py b/atrcopy/__init__.py
index 7c015c1..75f9c1e 100644
--- a/atrcopy/__init__.py
+++ b/atrcopy/__init__.py
@@ -271,6 +271,8 @@ def assemble_segments(source_files, data_files, obj_files, run_addr=""):
                 run_addr = int(run_addr)
             except ValueError:
                 run_addr = None
+    else:
+        run_addr = None
 
     return segments, run_addr
 
-- 
2.43.0


From 21ad459ced4b3a4f356c39eb72e76b4994870614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:26 +0000
Subject: [PATCH 37/39] fix: a damaged byte count in a sector must not read
 past the sector

The byte count in the last byte of an Atari DOS data sector was used
unchecked, so a damaged count returned bytes of the following sectors
and, in the last sector of the disk, raised IndexError.
---
 atrcopy/ataridos.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 8624f82..16ab696 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -223,8 +223,9 @@ class AtariDosDirent(Dirent):
         if next_sector in self.sectors_seen:
             raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
         self.current_sector = next_sector
-        num_bytes = raw[-1]
-        return raw[0:num_bytes], num_bytes
+        # a damaged byte count must not reach beyond the sector
+        data = raw[0:raw[-1]]
+        return data, len(data)
 
     def set_values(self, filename, filetype, index):
         if type(filename) is not bytes:
@@ -250,8 +251,9 @@ class MydosDirent(AtariDosDirent):
         if next_sector in self.sectors_seen:
             raise errors.InvalidFile("Bad sector pointer data: attempting to reread sector %d" % next_sector)
         self.current_sector = next_sector
-        num_bytes = raw[-1]
-        return raw[0:num_bytes], num_bytes
+        # a damaged byte count must not reach beyond the sector
+        data = raw[0:raw[-1]]
+        return data, len(data)
 
 
 class XexSegmentSaver(SegmentSaver):
-- 
2.43.0


From 474f58ca9f3722005cbf45da65ade5759f4da96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:53 +0000
Subject: [PATCH 38/39] fix: refuse ATR headers with an impossible sector size

A sector size of zero or one that is no multiple of 128 bytes ended in ZeroDivisionError, ValueError or IndexError.
---
 atrcopy/ataridos.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/atrcopy/ataridos.py b/atrcopy/ataridos.py
index 16ab696..06ca41c 100644
--- a/atrcopy/ataridos.py
+++ b/atrcopy/ataridos.py
@@ -414,6 +414,8 @@ class AtrHeader(BaseHeader):
             self.initial_sector_size = 128
             self.num_initial_sectors = 3
         else:
+            if self.sector_size == 0 or self.sector_size % 128 != 0:
+                raise errors.InvalidDiskImage("Invalid sector size %d" % self.sector_size)
             self.image_size = size
         self.first_vtoc = 360
         self.num_vtoc = 1
-- 
2.43.0


From 7424b46b80b8cc6258a9616dcd5c9ecedb220800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:17:00 +0000
Subject: [PATCH 39/39] fix: restore the segments of a DefaultSegmentParser
 from its saved state

DefaultSegmentParser has no image type, so reconstruct_segments called None
and a session saved from an image of unknown format could not be restored.
---
 atrcopy/parsers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/atrcopy/parsers.py b/atrcopy/parsers.py
index 44340be..d993d63 100644
--- a/atrcopy/parsers.py
+++ b/atrcopy/parsers.py
@@ -108,6 +108,9 @@ class DefaultSegmentParser(SegmentParser):
     def parse(self):
         self.segments = [DefaultSegment(self.segment_data, 0)]
 
+    def get_image(self, r):
+        return None
+
 
 class KBootSegmentParser(SegmentParser):
     menu_name = "KBoot Disk Image"
-- 
2.43.0

