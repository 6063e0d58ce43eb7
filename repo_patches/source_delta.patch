From a27e88c123b51d71d3be821fdccf8074fdfcaed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:54 +0000
Subject: [PATCH 01/95] fix: raise an error for truncated http downloads and
 listings

---
 pyTMD/utilities.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 0a3ce57..eb4044a 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -66,6 +66,7 @@ import warnings
 import importlib
 import posixpath
 import subprocess
+import http.client
 import lxml.etree
 import calendar, time
 import dateutil.parser
@@ -800,7 +801,7 @@ def http_list(
         raise Exception(msg) from exc
     else:
         # read and parse request for files (column names and modified times)
-        tree = lxml.etree.parse(response, parser)
+        tree = lxml.etree.parse(io.BytesIO(response.read()), parser)
         colnames = tree.xpath('//tr/td[not(@*)]//a/@href')
         # get the Unix timestamp value for a modification time
         collastmod = [get_unix_time(i,format=format)
@@ -878,6 +879,10 @@ def from_http(
         # copy remote file contents to bytesIO object
         remote_buffer = io.BytesIO()
         shutil.copyfileobj(response, remote_buffer, chunk)
+        # verify that the complete response was received
+        if getattr(response, 'length', None):
+            raise http.client.IncompleteRead(remote_buffer.getvalue(),
+                response.length)
         remote_buffer.seek(0)
         # save file basename with bytesIO object
         remote_buffer.filename = HOST[-1]
@@ -1336,7 +1341,8 @@ def cddis_list(
         # Create and submit request.
         request = urllib2.Request(posixpath.join(*HOST))
         request.add_header("Authorization", authorization_header)
-        tree = lxml.etree.parse(urllib2.urlopen(request, timeout=timeout), parser)
+        response = urllib2.urlopen(request, timeout=timeout)
+        tree = lxml.etree.parse(io.BytesIO(response.read()), parser)
     except:
         raise Exception('List error from {0}'.format(posixpath.join(*HOST)))
     else:
@@ -1444,6 +1450,10 @@ def from_cddis(
         # copy remote file contents to bytesIO object
         remote_buffer = io.BytesIO()
         shutil.copyfileobj(response, remote_buffer, chunk)
+        # verify that the complete response was received
+        if getattr(response, 'length', None):
+            raise http.client.IncompleteRead(remote_buffer.getvalue(),
+                response.length)
         remote_buffer.seek(0)
         # save file basename with bytesIO object
         remote_buffer.filename = HOST[-1]
@@ -1513,7 +1523,7 @@ def iers_list(
         raise Exception(msg) from exc
     else:
         # read and parse request for files (column names and modified times)
-        tree = lxml.etree.parse(response, parser)
+        tree = lxml.etree.parse(io.BytesIO(response.read()), parser)
         colnames = tree.xpath('//tr/td[@class="$tdclass"][4]//a/@href')
         # get the Unix timestamp value for a modification time
         collastmod = [get_unix_time(i,format='%Y-%m-%d')
@@ -1619,7 +1629,7 @@ def uhslc_list(
         raise Exception(msg) from exc
     else:
         # read and parse request for files
-        tree = lxml.etree.parse(response, parser)
+        tree = lxml.etree.parse(io.BytesIO(response.read()), parser)
         colnames = tree.xpath('//a/text()')
         # reduce using regular expression pattern
         if pattern:
-- 
2.43.0


From ba93d0d6b6e161fc9f3bfa744edd43b69626c4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 02/95] fix: never leave partial files after interrupted
 downloads

---
 pyTMD/utilities.py | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index eb4044a..9818e4a 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -57,11 +57,13 @@ import shutil
 import base64
 import socket
 import getpass
+import contextlib
 import inspect
 import hashlib
 import logging
 import pathlib
 import builtins
+import tempfile
 import warnings
 import importlib
 import posixpath
@@ -595,6 +597,32 @@ def ftp_list(
         # return the list of items and last modified times
         return (output, mtimes)
 
+# PURPOSE: open a temporary file that replaces a local file once complete
+@contextlib.contextmanager
+def _atomic_open(local: pathlib.Path):
+    """
+    Open a temporary file for writing that replaces the local file
+    only once it has been completely written
+
+    Parameters
+    ----------
+    local: pathlib.Path
+        path to local file
+    """
+    # keep symbolic links to files in other directories
+    local = pathlib.Path(local).resolve()
+    fd, temp = tempfile.mkstemp(prefix=f'.{local.name}.',
+        suffix='.part', dir=local.parent)
+    try:
+        with os.fdopen(fd, mode='wb') as f:
+            yield f
+        os.replace(temp, local)
+    except BaseException:
+        # remove the incomplete file
+        with contextlib.suppress(OSError):
+            os.unlink(temp)
+        raise
+
 # PURPOSE: download a file from a ftp host
 def from_ftp(
         HOST: str | list,
@@ -678,7 +706,7 @@ def from_ftp(
             logging.info('{0} -->\n\t{1}'.format(*args))
             # store bytes to file using chunked transfer encoding
             remote_buffer.seek(0)
-            with local.open(mode='wb') as f:
+            with _atomic_open(local) as f:
                 shutil.copyfileobj(remote_buffer, f, chunk)
             # change the permissions mode
             local.chmod(mode)
@@ -899,7 +927,7 @@ def from_http(
             logging.info('{0} -->\n\t{1}'.format(*args))
             # store bytes to file using chunked transfer encoding
             remote_buffer.seek(0)
-            with local.open(mode='wb') as f:
+            with _atomic_open(local) as f:
                 shutil.copyfileobj(remote_buffer, f, chunk)
             # change the permissions mode
             local.chmod(mode)
@@ -1470,7 +1498,7 @@ def from_cddis(
             logging.info('{0} -->\n\t{1}'.format(*args))
             # store bytes to file using chunked transfer encoding
             remote_buffer.seek(0)
-            with local.open(mode='wb') as f:
+            with _atomic_open(local) as f:
                 shutil.copyfileobj(remote_buffer, f, chunk)
             # change the permissions mode
             local.chmod(mode)
-- 
2.43.0


From 48c3546fc631e16c6e30150dacb21099da647a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:09 +0000
Subject: [PATCH 03/95] fix: prompt for password in reattempted logins

---
 pyTMD/utilities.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 9818e4a..782ce2d 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -1053,6 +1053,7 @@ def attempt_login(
             return opener
         # reattempt login
         username = builtins.input(f'Username for {urs}: ')
+        prompt = f'Password for {username}@{urs}: '
         password = getpass.getpass(prompt=prompt)
     # reached end of available retries
     raise RuntimeError('End of Retries: Check NASA Earthdata credentials')
-- 
2.43.0


From 2422fee522a6399f38d0b6304e444b54adc36cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 04/95] fix: replace local tide model files only once
 completely extracted

---
 scripts/aviso_fes_tides.py | 33 +++++++++++++++++++++------------
 scripts/gsfc_got_tides.py  | 11 +++++++----
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 41f6933..12dd875 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -319,13 +319,16 @@ def ftp_download(logger, ftp, remote_path, local_dir,
             logger.info(f'\t{str(local_file)}')
             # recursively create output directory if non-existent
             local_file.parent.mkdir(mode=MODE, parents=True, exist_ok=True)
-            # extract file to local directory
-            with tar.extractfile(m) as fi,opener(local_file, 'wb') as fo:
+            # extract file to temporary file in local directory
+            temp_file = local_file.with_name(f'.{local_file.name}.part')
+            with tar.extractfile(m) as fi,opener(temp_file, 'wb') as fo:
                 shutil.copyfileobj(fi, fo)
             # get last modified date of remote file within tar file
             # keep remote modification time of file and local access time
-            os.utime(local_file, (local_file.stat().st_atime, m.mtime))
-            local_file.chmod(mode=MODE)
+            os.utime(temp_file, (temp_file.stat().st_atime, m.mtime))
+            temp_file.chmod(mode=MODE)
+            # replace any local file once completely extracted
+            temp_file.replace(local_file)
     elif LZMA:
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {remote_file}')
@@ -349,13 +352,16 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         fileobj = io.BytesIO()
         ftp.retrbinary(f'RETR {remote_file}', fileobj.write, blocksize=CHUNK)
         fileobj.seek(0)
-        # decompress lzma file and extract contents to local directory
-        with lzma.open(fileobj) as fi,opener(local_file, 'wb') as fo:
+        # decompress lzma file and extract contents to temporary file
+        temp_file = local_file.with_name(f'.{local_file.name}.part')
+        with lzma.open(fileobj) as fi,opener(temp_file, 'wb') as fo:
             shutil.copyfileobj(fi, fo)
         # get last modified date of remote file within tar file
         # keep remote modification time of file and local access time
-        os.utime(local_file, (local_file.stat().st_atime, mtime))
-        local_file.chmod(mode=MODE)
+        os.utime(temp_file, (temp_file.stat().st_atime, mtime))
+        temp_file.chmod(mode=MODE)
+        # replace any local file once completely extracted
+        temp_file.replace(local_file)
     else:
         # copy readme and uncompressed files directly
         stem = posixpath.basename(remote_file)
@@ -375,12 +381,15 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         logger.info(f'\t{str(local_file)}\n')
         # recursively create output directory if non-existent
         local_file.parent.mkdir(mode=MODE, parents=True, exist_ok=True)
-        # copy remote file contents to local file
-        with opener(local_file, 'wb') as f:
+        # copy remote file contents to temporary file
+        temp_file = local_file.with_name(f'.{local_file.name}.part')
+        with opener(temp_file, 'wb') as f:
             ftp.retrbinary(f'RETR {remote_file}', f.write, blocksize=CHUNK)
         # keep remote modification time of file and local access time
-        os.utime(local_file, (local_file.stat().st_atime, mtime))
-        local_file.chmod(mode=MODE)
+        os.utime(temp_file, (temp_file.stat().st_atime, mtime))
+        temp_file.chmod(mode=MODE)
+        # replace any local file once completely downloaded
+        temp_file.replace(local_file)
 
 # PURPOSE: compare the modification time of two files
 def newer(t1: int, t2: int) -> bool:
diff --git a/scripts/gsfc_got_tides.py b/scripts/gsfc_got_tides.py
index 72b42b6..1dddb26 100644
--- a/scripts/gsfc_got_tides.py
+++ b/scripts/gsfc_got_tides.py
@@ -117,13 +117,16 @@ def gsfc_got_tides(MODEL: str,
         logger.info(f'\t{str(local_file)}')
         # recursively create output directory if non-existent
         local_file.parent.mkdir(mode=MODE, parents=True, exist_ok=True)
-        # extract file to local directory
-        with tar.extractfile(m) as fi,opener(local_file, 'wb') as fo:
+        # extract file to temporary file in local directory
+        temp_file = local_file.with_name(f'.{local_file.name}.part')
+        with tar.extractfile(m) as fi,opener(temp_file, 'wb') as fo:
             shutil.copyfileobj(fi, fo)
         # get last modified date of remote file within tar file
         # keep remote modification time of file and local access time
-        os.utime(local_file, (local_file.stat().st_atime, m.mtime))
-        local_file.chmod(mode=MODE)
+        os.utime(temp_file, (temp_file.stat().st_atime, m.mtime))
+        temp_file.chmod(mode=MODE)
+        # replace any local file once completely extracted
+        temp_file.replace(local_file)
 
 # PURPOSE: compare the modification time of two files
 def newer(t1: int, t2: int) -> bool:
-- 
2.43.0


From 6fd7ddf4d92abfab894fc9a62f4b5f1d22271955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 05/95] fix: only compress tide model files with compressed
 file names

---
 scripts/aviso_fes_tides.py | 8 ++++++--
 scripts/gsfc_got_tides.py  | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 12dd875..158f03e 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -289,8 +289,6 @@ def ftp_download(logger, ftp, remote_path, local_dir,
     ):
     # remote and local directory for data product
     remote_file = posixpath.join('auxiliary','tide_model',*remote_path)
-    # if compressing the output file
-    opener = gzip.open if GZIP else open
 
     # Printing files transferred
     remote_ftp_url = posixpath.join('ftp://', ftp.host, remote_file)
@@ -309,6 +307,8 @@ def ftp_download(logger, ftp, remote_path, local_dir,
             base, sfx = posixpath.splitext(m.name)
             # extract file contents to new file
             output = f'{member}.gz' if sfx in ('.asc','.nc') and GZIP else member
+            # if compressing the output file
+            opener = gzip.open if output != member else open
             local_file = local_dir.joinpath(*posixpath.split(output))
             # check if the local file exists
             if local_file.exists() and newer(m.mtime, local_file.stat().st_mtime):
@@ -338,6 +338,8 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         base, sfx = posixpath.splitext(stem)
         # extract file contents to new file
         output = f'{stem}.gz' if sfx in ('.asc','.nc') and GZIP else stem
+        # if compressing the output file
+        opener = gzip.open if output != stem else open
         local_file = local_dir.joinpath(output)
         # check if the local file exists
         if local_file.exists() and newer(mtime,local_file.stat().st_mtime):
@@ -368,6 +370,8 @@ def ftp_download(logger, ftp, remote_path, local_dir,
         base, sfx = posixpath.splitext(stem)
         # output file name for compressed and uncompressed cases
         output = f'{stem}.gz' if sfx in ('.asc','.nc') and GZIP else stem
+        # if compressing the output file
+        opener = gzip.open if output != stem else open
         local_file = local_dir.joinpath(output)
         # get last modified date of remote file and convert into unix time
         mdtm = ftp.sendcmd(f'MDTM {remote_file}')
diff --git a/scripts/gsfc_got_tides.py b/scripts/gsfc_got_tides.py
index 1dddb26..77e9fb4 100644
--- a/scripts/gsfc_got_tides.py
+++ b/scripts/gsfc_got_tides.py
@@ -60,8 +60,6 @@ def gsfc_got_tides(MODEL: str,
 
     # create logger for verbosity level
     logger = pyTMD.utilities.build_logger(__name__,level=logging.INFO)
-    # if compressing the output files
-    opener = gzip.open if GZIP else open
 
     # url for each tide model tarfile
     PATH = {}
@@ -107,6 +105,8 @@ def gsfc_got_tides(MODEL: str,
             continue
         # output file name
         output = f'{m.name}.gz' if sfx in ('.d','.nc') and GZIP else m.name
+        # if compressing the output file
+        opener = gzip.open if output != m.name else open
         local_file = DIRECTORY.joinpath(*posixpath.split(output))
         # check if the local file exists
         if local_file.exists() and newer(m.mtime, local_file.stat().st_mtime):
-- 
2.43.0


From dea07f60450691956bd50b26f811e0f7cf66dddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 06/95] fix: only skip hidden metadata files in GOT archives

---
 scripts/gsfc_got_tides.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/gsfc_got_tides.py b/scripts/gsfc_got_tides.py
index 77e9fb4..a094b5f 100644
--- a/scripts/gsfc_got_tides.py
+++ b/scripts/gsfc_got_tides.py
@@ -99,9 +99,9 @@ def gsfc_got_tides(MODEL: str,
             continue
         elif (sfx == '.d') and (FORMAT == 'netcdf'):
             continue
-        elif re.match(r'^.DS', posixpath.basename(m.name)):
+        elif re.match(r'^\.DS', posixpath.basename(m.name)):
             continue
-        elif re.match(r'^._', posixpath.basename(m.name)):
+        elif re.match(r'^\._', posixpath.basename(m.name)):
             continue
         # output file name
         output = f'{m.name}.gz' if sfx in ('.d','.nc') and GZIP else m.name
-- 
2.43.0


From 06a8760d916a5debfa9eff1cd82c90d40d7d3763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:52 +0000
Subject: [PATCH 07/95] fix: extract both components of the FES2014 currents

---
 scripts/aviso_fes_tides.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/aviso_fes_tides.py b/scripts/aviso_fes_tides.py
index 158f03e..1e57c38 100644
--- a/scripts/aviso_fes_tides.py
+++ b/scripts/aviso_fes_tides.py
@@ -206,8 +206,8 @@ def aviso_fes_tar(MODEL, f, logger,
         FES['FES2014'].append([subdir,'readme_fes2014_currents_v1.2.txt'])
         FES['FES2014'].append([subdir,'eastward_velocity.tar.xz'])
         FES['FES2014'].append([subdir,'northward_velocity.tar.xz'])
-        TAR['FES2014'].extend(['r'])
-        FLATTEN['FES2014'].extend([False])
+        TAR['FES2014'].extend([None,'r','r'])
+        FLATTEN['FES2014'].extend([None,False,False])
 
     # for each file for a model
     for remotepath,tarmode,flatten in zip(FES[MODEL],TAR[MODEL],FLATTEN[MODEL]):
-- 
2.43.0


From 3d674f72222066a91cedfb5948ce76f71ccf981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 08/95] fix: include time zone offsets in Unix timestamps

---
 pyTMD/utilities.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 782ce2d..323e4d6 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -405,7 +405,8 @@ def get_unix_time(
     except (TypeError, ValueError):
         pass
     else:
-        return calendar.timegm(parsed_time)
+        # convert to UTC if there is a time zone offset in the string
+        return calendar.timegm(parsed_time) - (parsed_time.tm_gmtoff or 0)
     # try parsing with dateutil
     try:
         parsed_time = dateutil.parser.parse(time_string.rstrip())
-- 
2.43.0


From 0ccee317e890999d0b80b128aa14439233683392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:23 +0000
Subject: [PATCH 09/95] fix: dates without a time zone are UTC in any local
 time zone

---
 pyTMD/utilities.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 323e4d6..72080f8 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -71,7 +71,7 @@ import subprocess
 import http.client
 import lxml.etree
 import calendar, time
-import dateutil.parser
+import dateutil.tz, dateutil.parser
 if sys.version_info[0] == 2:
     from urllib import quote_plus
     from cookielib import CookieJar
@@ -413,6 +413,9 @@ def get_unix_time(
     except (TypeError, ValueError):
         return None
     else:
+        # assume UTC if there is no time zone information in the string
+        if parsed_time.tzinfo is None:
+            parsed_time = parsed_time.replace(tzinfo=dateutil.tz.tzutc())
         return parsed_time.timestamp()
 
 # PURPOSE: output a time string in isoformat
-- 
2.43.0


From 7dc1cced9ab845ba07337780808e3f7d4d57e6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 10/95] fix: do not modify the objects of the caller when
 writing or reading files

---
 pyTMD/spatial.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index c39225b..344e7c4 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -392,6 +392,8 @@ def from_netCDF4(filename: str, **kwargs):
     kwargs.setdefault('yname', 'lat')
     kwargs.setdefault('varname', 'data')
     kwargs.setdefault('field_mapping', {})
+    # copy the mapping to not update the original
+    kwargs['field_mapping'] = copy.copy(kwargs['field_mapping'])
     # read data from netCDF4 file
     # Open the NetCDF4 file for reading
     if (kwargs['compression'] == 'gzip'):
@@ -502,6 +504,8 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
     kwargs.setdefault('yname', 'lat')
     kwargs.setdefault('varname', 'data')
     kwargs.setdefault('field_mapping', {})
+    # copy the mapping to not update the original
+    kwargs['field_mapping'] = copy.copy(kwargs['field_mapping'])
     # read data from HDF5 file
     # Open the HDF5 file for reading
     if (kwargs['compression'] == 'gzip'):
@@ -955,7 +959,6 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('time',),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
-            attributes[key].pop('_FillValue')
         elif val.shape:
             nc[key] = fileID.createVariable(key, val.dtype, ('time',))
         else:
@@ -964,6 +967,9 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         nc[key][:] = val
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
+            # fill value is set when creating the variable
+            if (att_name == '_FillValue'):
+                continue
             nc[key].setncattr(att_name, att_val)
 
 def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
@@ -997,7 +1003,6 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
-            attributes[key].pop('_FillValue')
         elif (val.ndim == 3):
             nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'))
         elif (val.ndim == 2):
@@ -1014,6 +1019,9 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         nc[key][:] = val
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
+            # fill value is set when creating the variable
+            if (att_name == '_FillValue'):
+                continue
             nc[key].setncattr(att_name, att_val)
 
 def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
@@ -1046,7 +1054,6 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         elif '_FillValue' in attributes[key].keys():
             nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'),
                 fill_value=attributes[key]['_FillValue'], zlib=True)
-            attributes[key].pop('_FillValue')
         elif (val.ndim == 2):
             nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'))
         elif val.shape and (len(val) == nt):
@@ -1059,6 +1066,9 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
         nc[key][:] = val
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
+            # fill value is set when creating the variable
+            if (att_name == '_FillValue'):
+                continue
             nc[key].setncattr(att_name, att_val)
 
 def to_HDF5(
@@ -1095,7 +1105,6 @@ def to_HDF5(
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, fillvalue=attributes[key]['_FillValue'],
                 compression='gzip')
-            attributes[key].pop('_FillValue')
         elif val.shape:
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, compression='gzip')
@@ -1157,7 +1166,7 @@ def to_geotiff(
     kwargs.setdefault('options', ['COMPRESS=LZW'])
     varname = copy.copy(kwargs['varname'])
     # verify grid dimensions to be iterable
-    output = expand_dims(output, varname=varname)
+    output = expand_dims(copy.copy(output), varname=varname)
     # grid shape
     ny, nx, nband = np.shape(output[varname])
     # output as geotiff or specified driver
@@ -1231,6 +1240,8 @@ def to_parquet(
     # convert to pandas dataframe
     df = pd.DataFrame(output)
     attrs = df.attrs.copy()
+    # copy attributes to not update the original
+    attributes = copy.copy(attributes)
     # add coordinate reference system to attributes
     if kwargs['crs'] and isinstance(kwargs['crs'], int):
         # create spatial reference object from EPSG code
-- 
2.43.0


From 08565d642086d7396b383d55a3a046e903ff5761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 11/95] fix: update existing variables and write scalars in
 HDF5 files

---
 pyTMD/spatial.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 344e7c4..04cc9de 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -553,7 +553,7 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
     # for each variable
     for key, h5 in kwargs['field_mapping'].items():
         # Getting the data from each HDF5 variable
-        dinput[key] = np.copy(group[h5][:])
+        dinput[key] = np.copy(group[h5][()])
         # get attributes for the included variables
         dinput['attributes'][key] = {}
         for attr in attributes_list:
@@ -1100,8 +1100,9 @@ def to_HDF5(
     h5 = {}
     for key, val in output.items():
         if key in fileID:
-            fileID[key][...] = val[:]
-        elif '_FillValue' in attributes[key].keys():
+            h5[key] = fileID[key]
+            h5[key][...] = val
+        elif val.shape and ('_FillValue' in attributes[key].keys()):
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, fillvalue=attributes[key]['_FillValue'],
                 compression='gzip')
@@ -1109,7 +1110,7 @@ def to_HDF5(
             h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype, compression='gzip')
         else:
-            h5[key] = fileID.create_dataset(key, val.shape,
+            h5[key] = fileID.create_dataset(key, val.shape, data=val,
                 dtype=val.dtype)
         # Defining attributes for variable
         for att_name, att_val in attributes[key].items():
-- 
2.43.0


From f52e750d6b4a75b52fa6eaa2298b47a2d6b2df81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 12/95] fix: update existing netCDF4 files and write fill
 values for any dimensions

---
 pyTMD/spatial.py | 91 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 64 insertions(+), 27 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 04cc9de..612bacb 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -135,6 +135,7 @@ __all__ = [
     "to_file",
     "to_ascii",
     "to_netCDF4",
+    "_netCDF4_dimension",
     "_drift_netCDF4",
     "_grid_netCDF4",
     "_time_series_netCDF4",
@@ -935,6 +936,24 @@ def to_netCDF4(
     # Closing the NetCDF file
     fileID.close()
 
+def _netCDF4_dimension(fileID, name: str, size: int):
+    """
+    Create a dimension in a netCDF4 file object if non-existent
+
+    Parameters
+    ----------
+    fileID: obj
+        open netCDF4 file object
+    name: str
+        name of the dimension
+    size: int
+        size of the dimension
+    """
+    if name not in fileID.dimensions:
+        fileID.createDimension(name, size)
+    elif (len(fileID.dimensions[name]) != size):
+        raise ValueError(f'Invalid size for existing dimension {name}')
+
 def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
     Write drift data variables to a netCDF4 file object
@@ -950,19 +969,23 @@ def _drift_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     """
 
     # Defining the NetCDF dimensions
-    fileID.createDimension('time', len(np.atleast_1d(output['time'])))
+    _netCDF4_dimension(fileID, 'time', len(np.atleast_1d(output['time'])))
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
+        # set fill value and compression when creating the variable
+        options = {}
+        if '_FillValue' in attributes[key].keys():
+            options['fill_value'] = attributes[key]['_FillValue']
+            options['zlib'] = True
         if key in fileID.variables:
             nc[key] = fileID.variables[key]
-        elif '_FillValue' in attributes[key].keys():
-            nc[key] = fileID.createVariable(key, val.dtype, ('time',),
-                fill_value=attributes[key]['_FillValue'], zlib=True)
         elif val.shape:
-            nc[key] = fileID.createVariable(key, val.dtype, ('time',))
+            nc[key] = fileID.createVariable(key, val.dtype, ('time',),
+                **options)
         else:
-            nc[key] = fileID.createVariable(key, val.dtype, ())
+            nc[key] = fileID.createVariable(key, val.dtype, (),
+                **options)
         # filling NetCDF variables
         nc[key][:] = val
         # Defining attributes for variable
@@ -992,29 +1015,37 @@ def _grid_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     # Defining the NetCDF dimensions
     reference_fields = [v for v in fields if output[v].ndim == 3]
     ny, nx, nt = output[reference_fields[0]].shape
-    fileID.createDimension('y', ny)
-    fileID.createDimension('x', nx)
-    fileID.createDimension('time', nt)
+    _netCDF4_dimension(fileID, 'y', ny)
+    _netCDF4_dimension(fileID, 'x', nx)
+    _netCDF4_dimension(fileID, 'time', nt)
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
+        # set fill value and compression when creating the variable
+        options = {}
+        if '_FillValue' in attributes[key].keys():
+            options['fill_value'] = attributes[key]['_FillValue']
+            options['zlib'] = True
         if key in fileID.variables:
             nc[key] = fileID.variables[key]
-        elif '_FillValue' in attributes[key].keys():
-            nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'),
-                fill_value=attributes[key]['_FillValue'], zlib=True)
         elif (val.ndim == 3):
-            nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'))
+            nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x', 'time'),
+                **options)
         elif (val.ndim == 2):
-            nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x'))
+            nc[key] = fileID.createVariable(key, val.dtype, ('y', 'x'),
+                **options)
         elif val.shape and (len(val) == ny):
-            nc[key] = fileID.createVariable(key, val.dtype, ('y',))
+            nc[key] = fileID.createVariable(key, val.dtype, ('y',),
+                **options)
         elif val.shape and (len(val) == nx):
-            nc[key] = fileID.createVariable(key, val.dtype, ('x',))
+            nc[key] = fileID.createVariable(key, val.dtype, ('x',),
+                **options)
         elif val.shape and (len(val) == nt):
-            nc[key] = fileID.createVariable(key, val.dtype, ('time',))
+            nc[key] = fileID.createVariable(key, val.dtype, ('time',),
+                **options)
         else:
-            nc[key] = fileID.createVariable(key, val.dtype, ())
+            nc[key] = fileID.createVariable(key, val.dtype, (),
+                **options)
         # filling NetCDF variables
         nc[key][:] = val
         # Defining attributes for variable
@@ -1044,24 +1075,30 @@ def _time_series_netCDF4(fileID, output: dict, attributes: dict, **kwargs):
     # Defining the NetCDF dimensions
     reference_fields = [v for v in fields if output[v].ndim == 2]
     nstation, nt = output[reference_fields[0]].shape
-    fileID.createDimension('station', nstation)
-    fileID.createDimension('time', nt)
+    _netCDF4_dimension(fileID, 'station', nstation)
+    _netCDF4_dimension(fileID, 'time', nt)
     # defining the NetCDF variables
     nc = {}
     for key, val in output.items():
+        # set fill value and compression when creating the variable
+        options = {}
+        if '_FillValue' in attributes[key].keys():
+            options['fill_value'] = attributes[key]['_FillValue']
+            options['zlib'] = True
         if key in fileID.variables:
             nc[key] = fileID.variables[key]
-        elif '_FillValue' in attributes[key].keys():
-            nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'),
-                fill_value=attributes[key]['_FillValue'], zlib=True)
         elif (val.ndim == 2):
-            nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'))
+            nc[key] = fileID.createVariable(key, val.dtype, ('station', 'time'),
+                **options)
         elif val.shape and (len(val) == nt):
-            nc[key] = fileID.createVariable(key, val.dtype, ('time',))
+            nc[key] = fileID.createVariable(key, val.dtype, ('time',),
+                **options)
         elif val.shape and (len(val) == nstation):
-            nc[key] = fileID.createVariable(key, val.dtype, ('station',))
+            nc[key] = fileID.createVariable(key, val.dtype, ('station',),
+                **options)
         else:
-            nc[key] = fileID.createVariable(key, val.dtype, ())
+            nc[key] = fileID.createVariable(key, val.dtype, (),
+                **options)
         # filling NetCDF variables
         nc[key][:] = val
         # Defining attributes for variable
-- 
2.43.0


From 95a09df6525a919ea253e4e6bbb4e32c6f3b49d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 13/95] fix: read gzip compressed HDF5 files from string paths

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 612bacb..e473859 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -514,7 +514,7 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
         with gzip.open(case_insensitive_filename(filename), 'r') as f:
             fid = io.BytesIO(f.read())
         # set filename of BytesIO object
-        fid.filename = filename.name
+        fid.filename = pathlib.Path(filename).name
         # rewind to start of file
         fid.seek(0)
         # read as in-memory (diskless) HDF5 dataset from BytesIO object
-- 
2.43.0


From c18b28c70fedcfbb7f91b89119cc72a99d765074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 14/95] fix: match complete attribute names in netCDF4 files

---
 pyTMD/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index e473859..c7f82d6 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -417,7 +417,7 @@ def from_netCDF4(filename: str, **kwargs):
     for attr in ['title', 'description', 'projection']:
         # try getting the attribute
         try:
-            ncattr, = [s for s in fileID.ncattrs() if re.match(attr, s, re.I)]
+            ncattr, = [s for s in fileID.ncattrs() if re.fullmatch(attr, s, re.I)]
             dinput['attributes'][attr] = fileID.getncattr(ncattr)
         except (ValueError, AttributeError):
             pass
@@ -444,7 +444,7 @@ def from_netCDF4(filename: str, **kwargs):
             # try getting the attribute
             try:
                 ncattr, = [s for s in group.variables[nc].ncattrs()
-                    if re.match(attr, s, re.I)]
+                    if re.fullmatch(attr, s, re.I)]
                 dinput['attributes'][key][attr] = \
                     group.variables[nc].getncattr(ncattr)
             except (ValueError, AttributeError):
-- 
2.43.0


From 7106f8b3f63bfe25b8f6b55f051df3dee7227b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 15/95] fix: compare complete file names in case insensitive
 searches

---
 pyTMD/spatial.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index c7f82d6..5607f97 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -177,8 +177,8 @@ def case_insensitive_filename(filename: str | pathlib.Path):
     filename = pathlib.Path(filename).expanduser().absolute()
     if not filename.exists():
         # search for filename without case dependence
-        f = [f.name for f in filename.parent.iterdir() if
-            re.match(filename.name, f.name, re.I)]
+        f = sorted(f.name for f in filename.parent.iterdir() if
+            (f.name.lower() == filename.name.lower()))
         # raise error if no file found
         if not f:
             raise FileNotFoundError(str(filename))
-- 
2.43.0


From a2d1d2422c8d18cc44b68ddf7eb11ee92d7f6c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:03 +0000
Subject: [PATCH 16/95] fix: mask zero, NaN and text fill values in files

---
 pyTMD/spatial.py | 50 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 5607f97..485057b 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -131,6 +131,7 @@ __all__ = [
     "from_netCDF4",
     "from_HDF5",
     "from_geotiff",
+    "mask_fill_values",
     "from_parquet",
     "to_file",
     "to_ascii",
@@ -356,9 +357,8 @@ def from_ascii(filename: str, **kwargs):
                 dinput[c][i] = np.float64(column[c])
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
-        dinput['data'] = np.ma.asarray(dinput['data'])
-        dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        fill_value = dinput['attributes']['data']['_FillValue']
+        dinput['data'] = mask_fill_values(dinput['data'], fill_value)
     # return the spatial variables
     return dinput
 
@@ -466,9 +466,8 @@ def from_netCDF4(filename: str, **kwargs):
         dinput['attributes']['projection'] = srs.ExportToProj4()
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
-        dinput['data'] = np.ma.asarray(dinput['data'])
-        dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        fill_value = dinput['attributes']['data']['_FillValue']
+        dinput['data'] = mask_fill_values(dinput['data'], fill_value)
     # Closing the NetCDF file
     fileID.close()
     # return the spatial variables
@@ -579,9 +578,8 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
         dinput['attributes']['projection'] = srs.ExportToProj4()
     # convert to masked array if fill values
     if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
-        dinput['data'] = np.ma.asarray(dinput['data'])
-        dinput['data'].fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'].mask = (dinput['data'].data == dinput['data'].fill_value)
+        fill_value = dinput['attributes']['data']['_FillValue']
+        dinput['data'] = mask_fill_values(dinput['data'], fill_value)
     # Closing the HDF5 file
     fileID.close()
     # return the spatial variables
@@ -675,11 +673,10 @@ def from_geotiff(filename: str, **kwargs):
     # check if image has fill values
     dinput['data'] = np.ma.asarray(dinput['data'])
     dinput['data'].mask = np.zeros_like(dinput['data'], dtype=bool)
-    if ds.GetRasterBand(1).GetNoDataValue():
+    if ds.GetRasterBand(1).GetNoDataValue() is not None:
         # mask invalid values
-        dinput['data'].fill_value = ds.GetRasterBand(1).GetNoDataValue()
-        # create mask array for bad values
-        dinput['data'].mask[:] = (dinput['data'].data == dinput['data'].fill_value)
+        dinput['data'] = mask_fill_values(dinput['data'],
+            ds.GetRasterBand(1).GetNoDataValue())
         # set attribute for fill value
         dinput['attributes']['data']['_FillValue'] = dinput['data'].fill_value
     # close the dataset
@@ -687,6 +684,33 @@ def from_geotiff(filename: str, **kwargs):
     # return the spatial variables
     return dinput
 
+def mask_fill_values(data: np.ndarray, fill_value: float):
+    """
+    Create a masked array of data using a fill value
+
+    Parameters
+    ----------
+    data: np.ndarray
+        data values
+    fill_value: float
+        value denoting invalid data points
+
+    Returns
+    -------
+    data: np.ma.MaskedArray
+        data values with invalid points masked
+    """
+    data = np.ma.asarray(data)
+    # fill values in text files are strings
+    data.fill_value = np.float64(fill_value) if \
+        isinstance(fill_value, str) else fill_value
+    # create mask array for bad values
+    data.mask = (data.data == data.fill_value)
+    # NaN fill values are not equal to themselves
+    if (data.dtype.kind == 'f') and np.isnan(data.fill_value):
+        data.mask |= np.isnan(data.data)
+    return data
+
 def from_parquet(filename: str, **kwargs):
     """
     Read data from a parquet file
-- 
2.43.0


From 9866c85ec398b55c70cda3052ebcfe93e7ed029c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 17/95] fix: write cloud optimized geotiff files

---
 pyTMD/spatial.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 485057b..684b07d 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1233,10 +1233,17 @@ def to_geotiff(
     ny, nx, nband = np.shape(output[varname])
     # output as geotiff or specified driver
     driver = osgeo.gdal.GetDriverByName(kwargs['driver'])
+    # check if the driver can only copy from existing datasets
+    copy_only = not driver.GetMetadataItem(osgeo.gdal.DCAP_CREATE)
     # set up the dataset with creation options
     filename = pathlib.Path(filename).expanduser().absolute()
-    ds = driver.Create(str(filename), nx, ny, nband,
-        kwargs['dtype'], kwargs['options'])
+    if copy_only:
+        # create an in-memory dataset to be copied to file
+        ds = osgeo.gdal.GetDriverByName('MEM').Create('', nx, ny, nband,
+            kwargs['dtype'])
+    else:
+        ds = driver.Create(str(filename), nx, ny, nband,
+            kwargs['dtype'], kwargs['options'])
     # top left x, w-e pixel resolution, rotation
     # top left y, rotation, n-s pixel resolution
     xmin, xmax, ymin, ymax = attributes['extent']
@@ -1258,8 +1265,12 @@ def to_geotiff(
         ds.GetRasterBand(band+1).WriteArray(output[varname][:, :, band])
     # print filename if verbose
     logging.info(str(filename))
+    # copy in-memory dataset to file
+    if copy_only:
+        ds = driver.CreateCopy(str(filename), ds, 0, kwargs['options'])
     # close dataset
     ds.FlushCache()
+    ds = None
 
 def to_parquet(
         output: dict,
-- 
2.43.0


From 926a4358fe04e1763efa11bfa8f855779f04a640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 18/95] fix: write and read parquet files without a coordinate
 reference system

---
 pyTMD/spatial.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 684b07d..755dd87 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -757,19 +757,16 @@ def from_parquet(filename: str, **kwargs):
     if 'geo' in attr.keys():
         # extract crs and encoding from geoparquet metadata
         primary_column = attr['geo']['primary_column']
-        crs_metadata = attr['geo']['columns'][primary_column]['crs']
+        crs_metadata = attr['geo']['columns'][primary_column].get('crs')
         encoding = attr['geo']['columns'][primary_column]['encoding']
         attr['geometry_encoding'] = encoding
-        # create spatial reference object from PROJJSON
-        osgeo.osr.UseExceptions()
-        srs = osgeo.osr.SpatialReference()
-        srs.SetFromUserInput(json.dumps(crs_metadata))
-        # add projection information to attributes
-        attr['projection'] = srs.ExportToProj4()
-        attr['wkt'] = srs.ExportToWkt()
     elif 'pyTMD' in attr.keys():
         # extract crs from pyTMD metadata
-        crs_metadata = attr['pyTMD']['crs']
+        crs_metadata = attr['pyTMD'].get('crs')
+    else:
+        crs_metadata = None
+    # add coordinate reference system if available
+    if crs_metadata is not None:
         # create spatial reference object from PROJJSON
         osgeo.osr.UseExceptions()
         srs = osgeo.osr.SpatialReference()
@@ -1310,6 +1307,8 @@ def to_parquet(
     kwargs.setdefault('geoparquet', False)
     kwargs.setdefault('geometry_encoding', 'WKB')
     kwargs.setdefault('primary_column', 'geometry')
+    # default coordinate reference system
+    srs = None
     # convert to pandas dataframe
     df = pd.DataFrame(output)
     attrs = df.attrs.copy()
@@ -1350,7 +1349,7 @@ def to_parquet(
         attrs[b"geo"]["primary_column"] = primary_column
         attrs[b"geo"]["columns"] = {primary_column: {
                 "encoding": 'WKB',
-                "crs": json.loads(srs.ExportToPROJJSON()),
+                "crs": json.loads(srs.ExportToPROJJSON()) if srs else None,
                 "bbox": bbox,
                 "covering": {
                     "bbox": collections.OrderedDict(
-- 
2.43.0


From 1796c3e490777b144c716cfb1fc6ca6830b42154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:28 +0000
Subject: [PATCH 19/95] fix: read compressed and in-memory text files as
 uncompressed files

---
 pyTMD/spatial.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 755dd87..7cf6857 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -250,6 +250,24 @@ def from_file(filename: str, format: str, **kwargs):
         raise ValueError(f'Invalid format {format}')
     return dinput
 
+def _decode(contents: str | bytes):
+    """
+    Decode the contents of an ascii file
+
+    Parameters
+    ----------
+    contents: str or bytes
+        contents of an ascii file
+    """
+    # check if already decoded
+    if isinstance(contents, str):
+        return contents
+    # decode with the encoding of uncompressed files (if valid)
+    try:
+        return contents.decode('utf8')
+    except UnicodeDecodeError:
+        return contents.decode('ISO-8859-1')
+
 def from_ascii(filename: str, **kwargs):
     """
     Read data from an ascii file
@@ -284,10 +302,10 @@ def from_ascii(filename: str, **kwargs):
         # read input ascii data from gzip compressed file and split lines
         filename = case_insensitive_filename(filename)
         with gzip.open(filename, 'r') as f:
-            file_contents = f.read().decode('ISO-8859-1').splitlines()
+            file_contents = _decode(f.read()).splitlines()
     elif (kwargs['compression'] == 'bytes'):
         # read input file object and split lines
-        file_contents = filename.read().splitlines()
+        file_contents = _decode(filename.read()).splitlines()
     else:
         # read input ascii file (.txt, .asc) and split lines
         filename = case_insensitive_filename(filename)
-- 
2.43.0


From 4d085bcb784baab277a511f983e083c925ada5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 20/95] fix: close netCDF4 and HDF5 files after errors

---
 pyTMD/spatial.py | 350 ++++++++++++++++++++++++-----------------------
 1 file changed, 179 insertions(+), 171 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 7cf6857..e6d6acc 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -425,69 +425,71 @@ def from_netCDF4(filename: str, **kwargs):
     else:
         # read netCDF4 dataset
         fileID = netCDF4.Dataset(case_insensitive_filename(filename), 'r')
-    # Output NetCDF file information
-    logging.info(fileID.filepath())
-    logging.info(list(fileID.variables.keys()))
-    # create python dictionary for output variables and attributes
-    dinput = {}
-    dinput['attributes'] = {}
-    # get attributes for the file
-    for attr in ['title', 'description', 'projection']:
-        # try getting the attribute
-        try:
-            ncattr, = [s for s in fileID.ncattrs() if re.fullmatch(attr, s, re.I)]
-            dinput['attributes'][attr] = fileID.getncattr(ncattr)
-        except (ValueError, AttributeError):
-            pass
-    # list of attributes to attempt to retrieve from included variables
-    attributes_list = ['description', 'units', 'long_name', 'calendar',
-        'standard_name', 'grid_mapping', '_FillValue']
-    # mapping between netCDF4 variable names and output names
-    if not kwargs['field_mapping']:
-        kwargs['field_mapping']['x'] = copy.copy(kwargs['xname'])
-        kwargs['field_mapping']['y'] = copy.copy(kwargs['yname'])
-        if kwargs['varname'] is not None:
-            kwargs['field_mapping']['data'] = copy.copy(kwargs['varname'])
-        if kwargs['timename'] is not None:
-            kwargs['field_mapping']['time'] = copy.copy(kwargs['timename'])
-    # check if reading from root group or sub-group
-    group = fileID.groups[kwargs['group']] if kwargs['group'] else fileID
-    # for each variable
-    for key, nc in kwargs['field_mapping'].items():
-        # Getting the data from each NetCDF variable
-        dinput[key] = group.variables[nc][:]
-        # get attributes for the included variables
-        dinput['attributes'][key] = {}
-        for attr in attributes_list:
+    try:
+        # Output NetCDF file information
+        logging.info(fileID.filepath())
+        logging.info(list(fileID.variables.keys()))
+        # create python dictionary for output variables and attributes
+        dinput = {}
+        dinput['attributes'] = {}
+        # get attributes for the file
+        for attr in ['title', 'description', 'projection']:
             # try getting the attribute
             try:
-                ncattr, = [s for s in group.variables[nc].ncattrs()
-                    if re.fullmatch(attr, s, re.I)]
-                dinput['attributes'][key][attr] = \
-                    group.variables[nc].getncattr(ncattr)
+                ncattr, = [s for s in fileID.ncattrs() if re.fullmatch(attr, s, re.I)]
+                dinput['attributes'][attr] = fileID.getncattr(ncattr)
             except (ValueError, AttributeError):
                 pass
-    # get projection information if there is a grid_mapping attribute
-    if 'data' in dinput.keys() and 'grid_mapping' in dinput['attributes']['data'].keys():
-        # try getting the attribute
-        grid_mapping = dinput['attributes']['data']['grid_mapping']
-        # get coordinate reference system attributes
-        dinput['attributes']['crs'] = {}
-        for att_name in group[grid_mapping].ncattrs():
-            dinput['attributes']['crs'][att_name] = \
-                group.variables[grid_mapping].getncattr(att_name)
-        # get the spatial projection reference information from wkt
-        # and overwrite the file-level projection attribute (if existing)
-        osgeo.osr.UseExceptions()
-        srs = osgeo.osr.SpatialReference()
-        srs.ImportFromWkt(dinput['attributes']['crs']['crs_wkt'])
-        dinput['attributes']['projection'] = srs.ExportToProj4()
-    # convert to masked array if fill values
-    if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
-        fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'] = mask_fill_values(dinput['data'], fill_value)
-    # Closing the NetCDF file
-    fileID.close()
+        # list of attributes to attempt to retrieve from included variables
+        attributes_list = ['description', 'units', 'long_name', 'calendar',
+            'standard_name', 'grid_mapping', '_FillValue']
+        # mapping between netCDF4 variable names and output names
+        if not kwargs['field_mapping']:
+            kwargs['field_mapping']['x'] = copy.copy(kwargs['xname'])
+            kwargs['field_mapping']['y'] = copy.copy(kwargs['yname'])
+            if kwargs['varname'] is not None:
+                kwargs['field_mapping']['data'] = copy.copy(kwargs['varname'])
+            if kwargs['timename'] is not None:
+                kwargs['field_mapping']['time'] = copy.copy(kwargs['timename'])
+        # check if reading from root group or sub-group
+        group = fileID.groups[kwargs['group']] if kwargs['group'] else fileID
+        # for each variable
+        for key, nc in kwargs['field_mapping'].items():
+            # Getting the data from each NetCDF variable
+            dinput[key] = group.variables[nc][:]
+            # get attributes for the included variables
+            dinput['attributes'][key] = {}
+            for attr in attributes_list:
+                # try getting the attribute
+                try:
+                    ncattr, = [s for s in group.variables[nc].ncattrs()
+                        if re.fullmatch(attr, s, re.I)]
+                    dinput['attributes'][key][attr] = \
+                        group.variables[nc].getncattr(ncattr)
+                except (ValueError, AttributeError):
+                    pass
+        # get projection information if there is a grid_mapping attribute
+        if 'data' in dinput.keys() and 'grid_mapping' in dinput['attributes']['data'].keys():
+            # try getting the attribute
+            grid_mapping = dinput['attributes']['data']['grid_mapping']
+            # get coordinate reference system attributes
+            dinput['attributes']['crs'] = {}
+            for att_name in group[grid_mapping].ncattrs():
+                dinput['attributes']['crs'][att_name] = \
+                    group.variables[grid_mapping].getncattr(att_name)
+            # get the spatial projection reference information from wkt
+            # and overwrite the file-level projection attribute (if existing)
+            osgeo.osr.UseExceptions()
+            srs = osgeo.osr.SpatialReference()
+            srs.ImportFromWkt(dinput['attributes']['crs']['crs_wkt'])
+            dinput['attributes']['projection'] = srs.ExportToProj4()
+        # convert to masked array if fill values
+        if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
+            fill_value = dinput['attributes']['data']['_FillValue']
+            dinput['data'] = mask_fill_values(dinput['data'], fill_value)
+    finally:
+        # Closing the NetCDF file
+        fileID.close()
     # return the spatial variables
     return dinput
 
@@ -542,64 +544,66 @@ def from_HDF5(filename: str | pathlib.Path, **kwargs):
     else:
         # read HDF5 dataset
         fileID = h5py.File(case_insensitive_filename(filename), 'r')
-    # Output HDF5 file information
-    logging.info(fileID.filename)
-    logging.info(list(fileID.keys()))
-    # create python dictionary for output variables and attributes
-    dinput = {}
-    dinput['attributes'] = {}
-    # get attributes for the file
-    for attr in ['title', 'description', 'projection']:
-        # try getting the attribute
-        try:
-            dinput['attributes'][attr] = fileID.attrs[attr]
-        except (KeyError, AttributeError):
-            pass
-    # list of attributes to attempt to retrieve from included variables
-    attributes_list = ['description', 'units', 'long_name', 'calendar',
-        'standard_name', 'grid_mapping', '_FillValue']
-    # mapping between HDF5 variable names and output names
-    if not kwargs['field_mapping']:
-        kwargs['field_mapping']['x'] = copy.copy(kwargs['xname'])
-        kwargs['field_mapping']['y'] = copy.copy(kwargs['yname'])
-        if kwargs['varname'] is not None:
-            kwargs['field_mapping']['data'] = copy.copy(kwargs['varname'])
-        if kwargs['timename'] is not None:
-            kwargs['field_mapping']['time'] = copy.copy(kwargs['timename'])
-    # check if reading from root group or sub-group
-    group = fileID[kwargs['group']] if kwargs['group'] else fileID
-    # for each variable
-    for key, h5 in kwargs['field_mapping'].items():
-        # Getting the data from each HDF5 variable
-        dinput[key] = np.copy(group[h5][()])
-        # get attributes for the included variables
-        dinput['attributes'][key] = {}
-        for attr in attributes_list:
+    try:
+        # Output HDF5 file information
+        logging.info(fileID.filename)
+        logging.info(list(fileID.keys()))
+        # create python dictionary for output variables and attributes
+        dinput = {}
+        dinput['attributes'] = {}
+        # get attributes for the file
+        for attr in ['title', 'description', 'projection']:
             # try getting the attribute
             try:
-                dinput['attributes'][key][attr] = group[h5].attrs[attr]
+                dinput['attributes'][attr] = fileID.attrs[attr]
             except (KeyError, AttributeError):
                 pass
-    # get projection information if there is a grid_mapping attribute
-    if 'data' in dinput.keys() and 'grid_mapping' in dinput['attributes']['data'].keys():
-        # try getting the attribute
-        grid_mapping = dinput['attributes']['data']['grid_mapping']
-        # get coordinate reference system attributes
-        dinput['attributes']['crs'] = {}
-        for att_name, att_val in group[grid_mapping].attrs.items():
-            dinput['attributes']['crs'][att_name] = att_val
-        # get the spatial projection reference information from wkt
-        # and overwrite the file-level projection attribute (if existing)
-        osgeo.osr.UseExceptions()
-        srs = osgeo.osr.SpatialReference()
-        srs.ImportFromWkt(dinput['attributes']['crs']['crs_wkt'])
-        dinput['attributes']['projection'] = srs.ExportToProj4()
-    # convert to masked array if fill values
-    if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
-        fill_value = dinput['attributes']['data']['_FillValue']
-        dinput['data'] = mask_fill_values(dinput['data'], fill_value)
-    # Closing the HDF5 file
-    fileID.close()
+        # list of attributes to attempt to retrieve from included variables
+        attributes_list = ['description', 'units', 'long_name', 'calendar',
+            'standard_name', 'grid_mapping', '_FillValue']
+        # mapping between HDF5 variable names and output names
+        if not kwargs['field_mapping']:
+            kwargs['field_mapping']['x'] = copy.copy(kwargs['xname'])
+            kwargs['field_mapping']['y'] = copy.copy(kwargs['yname'])
+            if kwargs['varname'] is not None:
+                kwargs['field_mapping']['data'] = copy.copy(kwargs['varname'])
+            if kwargs['timename'] is not None:
+                kwargs['field_mapping']['time'] = copy.copy(kwargs['timename'])
+        # check if reading from root group or sub-group
+        group = fileID[kwargs['group']] if kwargs['group'] else fileID
+        # for each variable
+        for key, h5 in kwargs['field_mapping'].items():
+            # Getting the data from each HDF5 variable
+            dinput[key] = np.copy(group[h5][()])
+            # get attributes for the included variables
+            dinput['attributes'][key] = {}
+            for attr in attributes_list:
+                # try getting the attribute
+                try:
+                    dinput['attributes'][key][attr] = group[h5].attrs[attr]
+                except (KeyError, AttributeError):
+                    pass
+        # get projection information if there is a grid_mapping attribute
+        if 'data' in dinput.keys() and 'grid_mapping' in dinput['attributes']['data'].keys():
+            # try getting the attribute
+            grid_mapping = dinput['attributes']['data']['grid_mapping']
+            # get coordinate reference system attributes
+            dinput['attributes']['crs'] = {}
+            for att_name, att_val in group[grid_mapping].attrs.items():
+                dinput['attributes']['crs'][att_name] = att_val
+            # get the spatial projection reference information from wkt
+            # and overwrite the file-level projection attribute (if existing)
+            osgeo.osr.UseExceptions()
+            srs = osgeo.osr.SpatialReference()
+            srs.ImportFromWkt(dinput['attributes']['crs']['crs_wkt'])
+            dinput['attributes']['projection'] = srs.ExportToProj4()
+        # convert to masked array if fill values
+        if 'data' in dinput.keys() and '_FillValue' in dinput['attributes']['data'].keys():
+            fill_value = dinput['attributes']['data']['_FillValue']
+            dinput['data'] = mask_fill_values(dinput['data'], fill_value)
+    finally:
+        # Closing the HDF5 file
+        fileID.close()
     # return the spatial variables
     return dinput
 
@@ -950,30 +954,32 @@ def to_netCDF4(
     # opening NetCDF file for writing
     filename = pathlib.Path(filename).expanduser().absolute()
     fileID = netCDF4.Dataset(filename, kwargs['mode'], format="NETCDF4")
-    if kwargs['data_type'] in ('drift',):
-        kwargs.pop('data_type')
-        _drift_netCDF4(fileID, output, attributes, **kwargs)
-    elif kwargs['data_type'] in ('grid',):
-        kwargs.pop('data_type')
-        _grid_netCDF4(fileID, output, attributes, **kwargs)
-    elif kwargs['data_type'] in ('time series',):
-        kwargs.pop('data_type')
-        _time_series_netCDF4(fileID, output, attributes, **kwargs)
-    # add attribute for date created
-    fileID.date_created = datetime.datetime.now().isoformat()
-    # add attributes for software information
-    fileID.software_reference = pyTMD.version.project_name
-    fileID.software_version = pyTMD.version.full_version
-    # add file-level attributes if applicable
-    if 'ROOT' in attributes.keys():
-        # Defining attributes for file
-        for att_name, att_val in attributes['ROOT'].items():
-            fileID.setncattr(att_name, att_val)
-    # Output NetCDF structure information
-    logging.info(str(filename))
-    logging.info(list(fileID.variables.keys()))
-    # Closing the NetCDF file
-    fileID.close()
+    try:
+        if kwargs['data_type'] in ('drift',):
+            kwargs.pop('data_type')
+            _drift_netCDF4(fileID, output, attributes, **kwargs)
+        elif kwargs['data_type'] in ('grid',):
+            kwargs.pop('data_type')
+            _grid_netCDF4(fileID, output, attributes, **kwargs)
+        elif kwargs['data_type'] in ('time series',):
+            kwargs.pop('data_type')
+            _time_series_netCDF4(fileID, output, attributes, **kwargs)
+        # add attribute for date created
+        fileID.date_created = datetime.datetime.now().isoformat()
+        # add attributes for software information
+        fileID.software_reference = pyTMD.version.project_name
+        fileID.software_version = pyTMD.version.full_version
+        # add file-level attributes if applicable
+        if 'ROOT' in attributes.keys():
+            # Defining attributes for file
+            for att_name, att_val in attributes['ROOT'].items():
+                fileID.setncattr(att_name, att_val)
+        # Output NetCDF structure information
+        logging.info(str(filename))
+        logging.info(list(fileID.variables.keys()))
+    finally:
+        # Closing the NetCDF file
+        fileID.close()
 
 def _netCDF4_dimension(fileID, name: str, size: int):
     """
@@ -1172,40 +1178,42 @@ def to_HDF5(
     # opening HDF5 file for writing
     filename = pathlib.Path(filename).expanduser().absolute()
     fileID = h5py.File(filename, mode=kwargs['mode'])
-    # Defining the HDF5 dataset variables
-    h5 = {}
-    for key, val in output.items():
-        if key in fileID:
-            h5[key] = fileID[key]
-            h5[key][...] = val
-        elif val.shape and ('_FillValue' in attributes[key].keys()):
-            h5[key] = fileID.create_dataset(key, val.shape, data=val,
-                dtype=val.dtype, fillvalue=attributes[key]['_FillValue'],
-                compression='gzip')
-        elif val.shape:
-            h5[key] = fileID.create_dataset(key, val.shape, data=val,
-                dtype=val.dtype, compression='gzip')
-        else:
-            h5[key] = fileID.create_dataset(key, val.shape, data=val,
-                dtype=val.dtype)
-        # Defining attributes for variable
-        for att_name, att_val in attributes[key].items():
-            h5[key].attrs[att_name] = att_val
-    # add attribute for date created
-    fileID.attrs['date_created'] = datetime.datetime.now().isoformat()
-    # add attributes for software information
-    fileID.attrs['software_reference'] = pyTMD.version.project_name
-    fileID.attrs['software_version'] = pyTMD.version.full_version
-    # add file-level attributes if applicable
-    if 'ROOT' in attributes.keys():
-        # Defining attributes for file
-        for att_name, att_val in attributes['ROOT'].items():
-            fileID.attrs[att_name] = att_val
-    # Output HDF5 structure information
-    logging.info(str(filename))
-    logging.info(list(fileID.keys()))
-    # Closing the HDF5 file
-    fileID.close()
+    try:
+        # Defining the HDF5 dataset variables
+        h5 = {}
+        for key, val in output.items():
+            if key in fileID:
+                h5[key] = fileID[key]
+                h5[key][...] = val
+            elif val.shape and ('_FillValue' in attributes[key].keys()):
+                h5[key] = fileID.create_dataset(key, val.shape, data=val,
+                    dtype=val.dtype, fillvalue=attributes[key]['_FillValue'],
+                    compression='gzip')
+            elif val.shape:
+                h5[key] = fileID.create_dataset(key, val.shape, data=val,
+                    dtype=val.dtype, compression='gzip')
+            else:
+                h5[key] = fileID.create_dataset(key, val.shape, data=val,
+                    dtype=val.dtype)
+            # Defining attributes for variable
+            for att_name, att_val in attributes[key].items():
+                h5[key].attrs[att_name] = att_val
+        # add attribute for date created
+        fileID.attrs['date_created'] = datetime.datetime.now().isoformat()
+        # add attributes for software information
+        fileID.attrs['software_reference'] = pyTMD.version.project_name
+        fileID.attrs['software_version'] = pyTMD.version.full_version
+        # add file-level attributes if applicable
+        if 'ROOT' in attributes.keys():
+            # Defining attributes for file
+            for att_name, att_val in attributes['ROOT'].items():
+                fileID.attrs[att_name] = att_val
+        # Output HDF5 structure information
+        logging.info(str(filename))
+        logging.info(list(fileID.keys()))
+    finally:
+        # Closing the HDF5 file
+        fileID.close()
 
 def to_geotiff(
         output: dict,
-- 
2.43.0


From 531a0053c925a66d3a65920c6b8fb6b25d22cfab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 21/95] fix: quote attributes with special characters in YAML
 headers

---
 pyTMD/spatial.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index e6d6acc..030ddcd 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -909,7 +909,7 @@ def to_ascii(
         for i, v in enumerate(columns):
             fid.write('    {0:22}:\n'.format(v))
             for atn, atv in attributes[v].items():
-                fid.write('      {0:20}: {1}\n'.format(atn, atv))
+                fid.write('      {0:20}: {1}\n'.format(atn, _yaml(atv)))
             # add precision and column attributes for ascii yaml header
             fid.write('      {0:20}: double_precision\n'.format('precision'))
             fid.write('      {0:20}: column {1:d}\n'.format('comment', i+1))
@@ -922,6 +922,25 @@ def to_ascii(
     # close the output file
     fid.close()
 
+def _yaml(value):
+    """
+    Format an attribute value for a YAML header
+
+    Parameters
+    ----------
+    value: str or float
+        attribute value
+    """
+    value = str(value)
+    # use unquoted text if valid in YAML
+    try:
+        if (yaml.load(f'a: {value}', Loader=yaml.BaseLoader) == {'a': value}):
+            return value
+    except yaml.YAMLError:
+        pass
+    # use double quotes for text with special characters
+    return json.dumps(value)
+
 def to_netCDF4(
         output: dict,
         attributes: dict,
-- 
2.43.0


From 76b96a5fbe7101777e3b3c5f0a5ffb266d8ba688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 22/95] fix: write single precision fill values to geotiff
 files

---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 030ddcd..3855e83 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1301,7 +1301,7 @@ def to_geotiff(
     for band in range(nband):
         # set fill value for band
         if '_FillValue' in attributes[varname].keys():
-            fill_value = attributes[varname]['_FillValue']
+            fill_value = float(attributes[varname]['_FillValue'])
             ds.GetRasterBand(band+1).SetNoDataValue(fill_value)
         # write band to geotiff array
         ds.GetRasterBand(band+1).WriteArray(output[varname][:, :, band])
-- 
2.43.0


From 1399705044ad17439db9469d3ccc9d435c8af8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:50 +0000
Subject: [PATCH 23/95] fix: read current contents of gzip compressed geotiff
 files

---
 pyTMD/spatial.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 3855e83..81eb4e4 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -625,8 +625,11 @@ def from_geotiff(filename: str, **kwargs):
     kwargs.setdefault('bounds', None)
     # Open the geotiff file for reading
     if (kwargs['compression'] == 'gzip'):
-        # read as GDAL gzip virtual geotiff dataset
-        mmap_name = f"/vsigzip/{str(case_insensitive_filename(filename))}"
+        # read as GDAL memory-mapped (diskless) geotiff dataset
+        # (virtual gzip datasets can be out of date for replaced files)
+        mmap_name = f"/vsimem/{uuid.uuid4().hex}"
+        with gzip.open(case_insensitive_filename(filename), 'r') as f:
+            osgeo.gdal.FileFromMemBuffer(mmap_name, f.read())
         ds = osgeo.gdal.Open(mmap_name)
     elif (kwargs['compression'] == 'bytes'):
         # read as GDAL memory-mapped (diskless) geotiff dataset
-- 
2.43.0


From c2865b50f8841baf5ba6dd70d0e116aff6cf9042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:14 +0000
Subject: [PATCH 24/95] fix: report errors when writing geotiff files

---
 pyTMD/spatial.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 81eb4e4..6447398 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -1282,12 +1282,15 @@ def to_geotiff(
     copy_only = not driver.GetMetadataItem(osgeo.gdal.DCAP_CREATE)
     # set up the dataset with creation options
     filename = pathlib.Path(filename).expanduser().absolute()
+    # create virtual file in memory (GDAL can fail to replace damaged files
+    # and does not report all errors when writing directly to disk)
+    mmap_name = f"/vsimem/{uuid.uuid4().hex}"
     if copy_only:
         # create an in-memory dataset to be copied to file
         ds = osgeo.gdal.GetDriverByName('MEM').Create('', nx, ny, nband,
             kwargs['dtype'])
     else:
-        ds = driver.Create(str(filename), nx, ny, nband,
+        ds = driver.Create(mmap_name, nx, ny, nband,
             kwargs['dtype'], kwargs['options'])
     # top left x, w-e pixel resolution, rotation
     # top left y, rotation, n-s pixel resolution
@@ -1312,10 +1315,17 @@ def to_geotiff(
     logging.info(str(filename))
     # copy in-memory dataset to file
     if copy_only:
-        ds = driver.CreateCopy(str(filename), ds, 0, kwargs['options'])
+        ds = driver.CreateCopy(mmap_name, ds, 0, kwargs['options'])
     # close dataset
     ds.FlushCache()
     ds = None
+    # write contents of virtual file to disk
+    nbytes = osgeo.gdal.VSIStatL(mmap_name).size
+    f_in = osgeo.gdal.VSIFOpenL(mmap_name, 'rb')
+    with filename.open(mode='wb') as f_out:
+        f_out.write(osgeo.gdal.VSIFReadL(1, nbytes, f_in))
+    osgeo.gdal.VSIFCloseL(f_in)
+    osgeo.gdal.Unlink(mmap_name)
 
 def to_parquet(
         output: dict,
-- 
2.43.0


From f9c6b4131512589655094011df0f600eb1786fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:08 +0000
Subject: [PATCH 25/95] fix: replace damaged netCDF4 and HDF5 files

---
 pyTMD/spatial.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 6447398..2571b2a 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -975,6 +975,9 @@ def to_netCDF4(
     kwargs.setdefault('data_type', 'drift')
     # opening NetCDF file for writing
     filename = pathlib.Path(filename).expanduser().absolute()
+    # remove any existing file (damaged files can be left open by HDF5)
+    if (kwargs['mode'] == 'w'):
+        filename.resolve().unlink(missing_ok=True)
     fileID = netCDF4.Dataset(filename, kwargs['mode'], format="NETCDF4")
     try:
         if kwargs['data_type'] in ('drift',):
@@ -1199,6 +1202,9 @@ def to_HDF5(
     kwargs.setdefault('mode', 'w')
     # opening HDF5 file for writing
     filename = pathlib.Path(filename).expanduser().absolute()
+    # remove any existing file (damaged files can be left open by HDF5)
+    if (kwargs['mode'] == 'w'):
+        filename.resolve().unlink(missing_ok=True)
     fileID = h5py.File(filename, mode=kwargs['mode'])
     try:
         # Defining the HDF5 dataset variables
-- 
2.43.0


From 0bb6eb3857403e14dd85637c4ecd5d294bc058c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 26/95] fix: write complete big-endian records to OTIS files

---
 pyTMD/io/OTIS.py | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index b3717cd..837dc9b 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1782,8 +1782,8 @@ def output_otis_grid(
     fid.write(struct.pack('>i',reclen))
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    fid.write(np.asarray(ylim, dtype='>f4').tobytes())
+    fid.write(np.asarray(xlim, dtype='>f4').tobytes())
     fid.write(struct.pack('>f',dt))
     fid.write(struct.pack('>i',nob))
     fid.write(struct.pack('>i',reclen))
@@ -1794,18 +1794,17 @@ def output_otis_grid(
     else:
         reclen = 8*nob
         fid.write(struct.pack('>i',reclen))
-        iob.tofile(fid,format='>i4')
+        fid.write(np.asarray(iob, dtype='>i4').tobytes())
         fid.write(struct.pack('>i',reclen))
     reclen = 4*nx*ny
     # write depth and mask data to file
     fid.write(struct.pack('>i',reclen))
-    hz.tofile(fid,format='>f4')
     for m in range(ny):
-        hz[m,:].tofile(fid,format='>f4')
+        fid.write(np.asarray(hz[m,:], dtype='>f4').tobytes())
     fid.write(struct.pack('>i',reclen))
     fid.write(struct.pack('>i',reclen))
     for m in range(ny):
-        mz[m,:].tofile(fid,format='>i4')
+        fid.write(np.asarray(mz[m,:], dtype='>i4').tobytes())
     fid.write(struct.pack('>i',reclen))
     # close the output OTIS file
     fid.close()
@@ -1845,8 +1844,8 @@ def output_otis_elevation(
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
     fid.write(struct.pack('>i',nc))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    fid.write(np.asarray(ylim, dtype='>f4').tobytes())
+    fid.write(np.asarray(xlim, dtype='>f4').tobytes())
     for c in constituents:
         fid.write(c.ljust(4).encode('utf8'))
     fid.write(struct.pack('>i',header_length))
@@ -1858,7 +1857,7 @@ def output_otis_elevation(
             temp = np.zeros((2*nx),dtype='>f')
             temp[0:2*nx-1:2] = h.real[m,:,ic]
             temp[1:2*nx:2] = h.imag[m,:,ic]
-            temp.tofile(fid,format='>f4')
+            fid.write(temp.tobytes())
         fid.write(struct.pack('>i',constituent_header))
     # close the output OTIS file
     fid.close()
@@ -1901,8 +1900,8 @@ def output_otis_transport(
     fid.write(struct.pack('>i',nx))
     fid.write(struct.pack('>i',ny))
     fid.write(struct.pack('>i',nc))
-    ylim.tofile(fid,format='>f4')
-    xlim.tofile(fid,format='>f4')
+    fid.write(np.asarray(ylim, dtype='>f4').tobytes())
+    fid.write(np.asarray(xlim, dtype='>f4').tobytes())
     for c in constituents:
         fid.write(c.ljust(4).encode('utf8'))
     fid.write(struct.pack('>i',header_length))
@@ -1916,7 +1915,7 @@ def output_otis_transport(
             temp[1:4*nx-2:4] = u.imag[m,:,ic]
             temp[2:4*nx-1:4] = v.real[m,:,ic]
             temp[3:4*nx:4] = v.imag[m,:,ic]
-            temp.tofile(fid,format='>f4')
+            fid.write(temp.tobytes())
         fid.write(struct.pack('>i',constituent_header))
     # close the output OTIS file
     fid.close()
-- 
2.43.0


From a84c9ce5f0fea6de75dce0a327aee852fa5c20eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 27/95] fix: separate four character constituent names in OTIS
 files

---
 pyTMD/io/OTIS.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 837dc9b..ba8d8d8 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1164,7 +1164,8 @@ def read_constituents(
         ll, = np.fromfile(fid, dtype=np.dtype('>i4'), count=1)
         nx,ny,nc = np.fromfile(fid, dtype=np.dtype('>i4'), count=3)
         fid.seek(16,1)
-        constituents = [c.decode("utf8").rstrip() for c in fid.read(nc*4).split()]
+        names = fid.read(nc*4).decode("utf8")
+        constituents = [names[i:i+4].strip() for i in range(0, 4*nc, 4)]
         fid.close()
     return (constituents, nc)
 
@@ -1284,7 +1285,8 @@ def read_atlas_elevation(
         lt1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         ln1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         # extract constituents for localized solution
-        cons = fid.read(nc1*4).strip().decode("utf8").split()
+        names = fid.read(nc1*4).decode("utf8")
+        cons = [names[i:i+4].strip() for i in range(0, 4*nc1, 4)]
         # check if constituent is in list of localized solutions
         if (constituent in cons):
             ic1, = [i for i,c in enumerate(cons) if (c == constituent)]
@@ -1449,7 +1451,8 @@ def read_atlas_transport(
         lt1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         ln1 = np.fromfile(fid, dtype=np.dtype('>f4'), count=2)
         # extract constituents for localized solution
-        cons = fid.read(nc1*4).strip().decode("utf8").split()
+        names = fid.read(nc1*4).decode("utf8")
+        cons = [names[i:i+4].strip() for i in range(0, 4*nc1, 4)]
         # check if constituent is in list of localized solutions
         if (constituent in cons):
             ic1, = [i for i,c in enumerate(cons) if (c == constituent)]
-- 
2.43.0


From 1625a235ef5ad940e8072f9921ecbc12bcea25a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 28/95] fix: read constituent names from ATLAS netCDF4 files
 with encoding

---
 pyTMD/io/ATLAS.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index ab6aba7..78471fa 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -836,6 +836,7 @@ def read_netcdf_elevation(
     else:
         fileID = netCDF4.Dataset(input_file, 'r')
     # constituent name
+    fileID.variables['con'].set_auto_chartostring(False)
     con = fileID.variables['con'][:].tobytes().decode('utf8')
     # variable dimensions
     nx = fileID.dimensions['nx'].size
@@ -895,6 +896,7 @@ def read_netcdf_transport(
     else:
         fileID = netCDF4.Dataset(input_file, 'r')
     # constituent name
+    fileID.variables['con'].set_auto_chartostring(False)
     con = fileID.variables['con'][:].tobytes().decode('utf8')
     # variable dimensions
     nx = fileID.dimensions['nx'].size
-- 
2.43.0


From 14fa8845b5fdddd3ccfc3c2998b48c5a287ea7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:26 +0000
Subject: [PATCH 29/95] fix: read compressed FES ascii files

---
 pyTMD/io/FES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 8a5b66c..83a2b91 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -623,7 +623,7 @@ def read_ascii_file(
     if kwargs['compressed']:
         # read gzipped ascii file
         with gzip.open(input_file, 'rb') as f:
-            file_contents = f.read(input_file).splitlines()
+            file_contents = f.read().decode('utf8').splitlines()
     else:
         with open(input_file, mode="r", encoding='utf8') as f:
             file_contents = f.read().splitlines()
-- 
2.43.0


From b22eb56a2e1258d626549e00bbf3ab4f52119a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:27 +0000
Subject: [PATCH 30/95] fix: output FES currents

---
 pyTMD/io/FES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 83a2b91..92d1aca 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -833,7 +833,7 @@ def output_netcdf_file(
     # filling the NetCDF variables
     nc['lon'][:] = lon[:]
     nc['lat'][:] = lat[:]
-    nc['amplitude'][:] = amp[:]
+    nc[amp_key][:] = amp[:]
     nc[phase_key][:] = ph[:]
     # set variable attributes for coordinates
     nc['lon'].setncattr('axis', 'X')
-- 
2.43.0


From 5975b341659f551ec6c85378b3ff58b95add640c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:14 +0000
Subject: [PATCH 31/95] fix: write masked points as invalid in OTIS files

---
 pyTMD/io/OTIS.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index ba8d8d8..02dd9fb 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1858,8 +1858,8 @@ def output_otis_elevation(
         fid.write(struct.pack('>i',constituent_header))
         for m in range(ny):
             temp = np.zeros((2*nx),dtype='>f')
-            temp[0:2*nx-1:2] = h.real[m,:,ic]
-            temp[1:2*nx:2] = h.imag[m,:,ic]
+            temp[0:2*nx-1:2] = np.ma.filled(h.real[m,:,ic], np.nan)
+            temp[1:2*nx:2] = np.ma.filled(h.imag[m,:,ic], np.nan)
             fid.write(temp.tobytes())
         fid.write(struct.pack('>i',constituent_header))
     # close the output OTIS file
@@ -1914,10 +1914,10 @@ def output_otis_transport(
         fid.write(struct.pack('>i',constituent_header))
         for m in range(ny):
             temp = np.zeros((4*nx),dtype='>f')
-            temp[0:4*nx-3:4] = u.real[m,:,ic]
-            temp[1:4*nx-2:4] = u.imag[m,:,ic]
-            temp[2:4*nx-1:4] = v.real[m,:,ic]
-            temp[3:4*nx:4] = v.imag[m,:,ic]
+            temp[0:4*nx-3:4] = np.ma.filled(u.real[m,:,ic], np.nan)
+            temp[1:4*nx-2:4] = np.ma.filled(u.imag[m,:,ic], np.nan)
+            temp[2:4*nx-1:4] = np.ma.filled(v.real[m,:,ic], np.nan)
+            temp[3:4*nx:4] = np.ma.filled(v.imag[m,:,ic], np.nan)
             fid.write(temp.tobytes())
         fid.write(struct.pack('>i',constituent_header))
     # close the output OTIS file
-- 
2.43.0


From 4eab569f757d30c20a4759762cf62d3dc22b6fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:27 +0000
Subject: [PATCH 32/95] fix: raise an error for constituent names too long for
 OTIS files

---
 pyTMD/io/OTIS.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 02dd9fb..484b66f 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1838,6 +1838,9 @@ def output_otis_elevation(
     """
     # tilde-expand output file
     FILE = pathlib.Path(FILE).expanduser()
+    # check that constituents fit within 4 character strings
+    if any(len(c) > 4 for c in constituents):
+        raise ValueError('Constituent names exceed 4 characters')
     # open output file
     fid = FILE.open(mode='wb')
     ny, nx, nc = np.shape(h)
@@ -1894,6 +1897,9 @@ def output_otis_transport(
     """
     # tilde-expand output file
     FILE = pathlib.Path(FILE).expanduser()
+    # check that constituents fit within 4 character strings
+    if any(len(c) > 4 for c in constituents):
+        raise ValueError('Constituent names exceed 4 characters')
     # open output file
     fid = FILE.open(mode='wb')
     ny, nx, nc = np.shape(u)
-- 
2.43.0


From 23c9012b44d8c068c05349479df1e3a004463fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 33/95] fix: raise errors for truncated OTIS files

---
 pyTMD/io/OTIS.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 484b66f..41c2084 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1065,7 +1065,7 @@ def read_atlas_grid(input_file: str | pathlib.Path):
         fid.seek(8,1)
         depth = np.ma.zeros((ny1,nx1))
         depth.mask = np.ones((ny1,nx1), dtype=bool)
-        depth.data[jz-1,iz-1] = np.fromfile(fid, dtype=np.dtype('>f4'), count=nd)
+        depth.data[jz-1,iz-1] = np.fromfile(fid, dtype=np.dtype('>f4'), count=nd).reshape(nd)
         depth.mask[jz-1,iz-1] = False
         fid.seek(4,1)
         # save to dictionary
@@ -1165,6 +1165,8 @@ def read_constituents(
         nx,ny,nc = np.fromfile(fid, dtype=np.dtype('>i4'), count=3)
         fid.seek(16,1)
         names = fid.read(nc*4).decode("utf8")
+        if (len(names) != 4*nc):
+            raise EOFError(f'{input_file} is truncated')
         constituents = [names[i:i+4].strip() for i in range(0, 4*nc, 4)]
         fid.close()
     return (constituents, nc)
@@ -1205,7 +1207,7 @@ def read_otis_elevation(
     h = np.ma.zeros((ny, nx), dtype=np.complex64)
     h.mask = np.zeros((ny, nx), dtype=bool)
     for i in range(ny):
-        temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nx)
+        temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nx).reshape(2*nx)
         h.data.real[i,:] = temp[0:2*nx-1:2]
         h.data.imag[i,:] = temp[1:2*nx:2]
     # update mask for nan values
@@ -1262,7 +1264,7 @@ def read_atlas_elevation(
     h = np.ma.zeros((ny, nx), dtype=np.complex64)
     h.mask = np.zeros((ny, nx), dtype=bool)
     for i in range(ny):
-        temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nx)
+        temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nx).reshape(2*nx)
         h.data.real[i,:] = temp[0:2*nx-1:2]
         h.data.imag[i,:] = temp[1:2*nx:2]
     # skip records after constituent
@@ -1301,7 +1303,7 @@ def read_atlas_elevation(
             # real and imaginary components of elevation
             h1 = np.ma.zeros((ny1,nx1), fill_value=np.nan, dtype=np.complex64)
             h1.mask = np.ones((ny1,nx1), dtype=bool)
-            temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nz)
+            temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nz).reshape(2*nz)
             h1.data.real[jz-1,iz-1] = temp[0:2*nz-1:2]
             h1.data.imag[jz-1,iz-1] = temp[1:2*nz:2]
             h1.mask[jz-1,iz-1] = False
@@ -1314,6 +1316,9 @@ def read_atlas_elevation(
             # skip records for local model if constituent not in list
             nskip = 40 + 16*int(nz) + (int(nc1) - 1)*(8*int(nz) + 8)
             fid.seek(nskip,1)
+    # check that the complete file was read
+    if (fid.tell() > file_info.st_size):
+        raise EOFError(f'{input_file} is truncated')
     # close the file
     fid.close()
     # return the elevation
@@ -1359,7 +1364,7 @@ def read_otis_transport(
     v = np.ma.zeros((ny, nx), dtype=np.complex64)
     v.mask = np.zeros((ny, nx), dtype=bool)
     for i in range(ny):
-        temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=4*nx)
+        temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=4*nx).reshape(4*nx)
         u.data.real[i,:] = temp[0:4*nx-3:4]
         u.data.imag[i,:] = temp[1:4*nx-2:4]
         v.data.real[i,:] = temp[2:4*nx-1:4]
@@ -1425,7 +1430,7 @@ def read_atlas_transport(
     v = np.ma.zeros((ny, nx), dtype=np.complex64)
     v.mask = np.zeros((ny, nx), dtype=bool)
     for i in range(ny):
-        temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=4*nx)
+        temp = np.fromfile(fid, dtype=np.dtype('>f4'), count=4*nx).reshape(4*nx)
         u.data.real[i,:] = temp[0:4*nx-3:4]
         u.data.imag[i,:] = temp[1:4*nx-2:4]
         v.data.real[i,:] = temp[2:4*nx-1:4]
@@ -1470,7 +1475,7 @@ def read_atlas_transport(
             # real and imaginary components of u transport
             u1 = np.ma.zeros((ny1,nx1), fill_value=np.nan, dtype=np.complex64)
             u1.mask = np.ones((ny1,nx1), dtype=bool)
-            tmpu = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nu)
+            tmpu = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nu).reshape(2*nu)
             u1.data.real[ju-1,iu-1] = tmpu[0:2*nu-1:2]
             u1.data.imag[ju-1,iu-1] = tmpu[1:2*nu:2]
             u1.mask[ju-1,iu-1] = False
@@ -1478,7 +1483,7 @@ def read_atlas_transport(
             # real and imaginary components of v transport
             v1 = np.ma.zeros((ny1,nx1), fill_value=np.nan, dtype=np.complex64)
             v1.mask = np.ones((ny1,nx1), dtype=bool)
-            tmpv = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nv)
+            tmpv = np.fromfile(fid, dtype=np.dtype('>f4'), count=2*nv).reshape(2*nv)
             v1.data.real[jv-1,iv-1] = tmpv[0:2*nv-1:2]
             v1.data.imag[jv-1,iv-1] = tmpv[1:2*nv:2]
             v1.mask[jv-1,iv-1] = False
@@ -1492,6 +1497,9 @@ def read_atlas_transport(
             nskip = 56 + 16*int(nu) + 16*int(nv) + \
                 (int(nc1) - 1)*(8*int(nu) + 8*int(nv) + 16)
             fid.seek(nskip,1)
+    # check that the complete file was read
+    if (fid.tell() > file_info.st_size):
+        raise EOFError(f'{input_file} is truncated')
     # close the file
     fid.close()
     # return the transport components
-- 
2.43.0


From 053ed834e1f0b7fea7f2f1abaf436c817e33fe43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 34/95] fix: raise errors for truncated lines in GOT ascii
 files

---
 pyTMD/io/GOT.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 7ce8eab..e3668a4 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -597,17 +597,17 @@ def read_ascii_file(
         for j in range(nlon//11):
             j1 = j*11
             amplitude_data = file_contents[l1].split()
-            amp.data[i,j1:j1+11] = np.array(amplitude_data, dtype=np.float32)
+            amp.data[i,j1:j1+11] = np.array(amplitude_data, dtype=np.float32).reshape(11)
             phase_data = file_contents[l2].split()
-            ph.data[i,j1:j1+11] = np.array(phase_data, dtype=np.float32)
+            ph.data[i,j1:j1+11] = np.array(phase_data, dtype=np.float32).reshape(11)
             l1 += 1
             l2 += 1
         # add last tidal variables
         j1 = (j+1)*11; j2 = nlon % 11
         amplitude_data = file_contents[l1].split()
-        amp.data[i,j1:j1+j2] = np.array(amplitude_data, dtype=np.float32)
+        amp.data[i,j1:j1+j2] = np.array(amplitude_data, dtype=np.float32).reshape(j2)
         phase_data = file_contents[l2].split()
-        ph.data[i,j1:j1+j2] = np.array(phase_data, dtype=np.float32)
+        ph.data[i,j1:j1+j2] = np.array(phase_data, dtype=np.float32).reshape(j2)
         l1 += 1
         l2 += 1
     # set masks
-- 
2.43.0


From 7ea36b871b480f087cd09043b9b80833ab3c17c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:18 +0000
Subject: [PATCH 35/95] fix: raise errors for truncated lines in FES ascii
 files

---
 pyTMD/io/FES.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 92d1aca..da35078 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -654,17 +654,17 @@ def read_ascii_file(
         for j in range(nlon//30):
             j1 = j*30
             amplitude_data = file_contents[i1].split()
-            amp.data[i,j1:j1+30] = np.array(amplitude_data, dtype=np.float32)
+            amp.data[i,j1:j1+30] = np.array(amplitude_data, dtype=np.float32).reshape(30)
             phase_data = file_contents[i1+1].split()
-            ph.data[i,j1:j1+30] = np.array(phase_data, dtype=np.float32)
+            ph.data[i,j1:j1+30] = np.array(phase_data, dtype=np.float32).reshape(30)
             i1 += 2
         # add last tidal variables
         j1 = (j+1)*30
         j2 = nlon % 30
         amplitude_data = file_contents[i1].split()
-        amp.data[i,j1:j1+j2] = np.array(amplitude_data, dtype=np.float32)
+        amp.data[i,j1:j1+j2] = np.array(amplitude_data, dtype=np.float32).reshape(j2)
         phase_data = file_contents[i1+1].split()
-        ph.data[i,j1:j1+j2] = np.array(phase_data, dtype=np.float32)
+        ph.data[i,j1:j1+j2] = np.array(phase_data, dtype=np.float32).reshape(j2)
         i1 += 2
     # calculate complex form of constituent oscillation
     mask = (amp.data == amp.fill_value) | (ph.data == ph.fill_value)
-- 
2.43.0


From 2cb626b7ccd857211ec2745d5a6dd2b1ecf2ca72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 36/95] fix: raise errors for truncated ATLAS grid files

---
 pyTMD/io/OTIS.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 41c2084..a892f53 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -1070,6 +1070,9 @@ def read_atlas_grid(input_file: str | pathlib.Path):
         fid.seek(4,1)
         # save to dictionary
         local[name] = dict(lon=ln1, lat=lt1, depth=depth)
+    # check that the complete file was read
+    if (fid.tell() > file_info.st_size):
+        raise EOFError(f'{input_file} is truncated')
     # close the file
     fid.close()
     # return values
-- 
2.43.0


From ca9767bfadb392dfd33e0914454d28ea25034c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:42 +0000
Subject: [PATCH 37/95] fix: replace netCDF4 tide model files only once
 completely written

---
 pyTMD/io/ATLAS.py  |  5 ++++-
 pyTMD/io/FES.py    |  3 ++-
 pyTMD/io/GOT.py    |  3 ++-
 pyTMD/utilities.py | 25 +++++++++++++++++++++++++
 4 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 78471fa..8e92cc9 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -107,7 +107,7 @@ import numpy as np
 import pyTMD.version
 import pyTMD.io.constituents
 import pyTMD.interpolate
-from pyTMD.utilities import import_dependency
+from pyTMD.utilities import import_dependency, _replace_output
 
 # attempt imports
 netCDF4 = import_dependency('netCDF4')
@@ -917,6 +917,7 @@ def read_netcdf_transport(
     return (hc, con.strip())
 
 # PURPOSE: output grid file in ATLAS netCDF format
+@_replace_output
 def output_netcdf_grid(
         FILE: str | pathlib.Path,
         hz: np.ndarray,
@@ -1016,6 +1017,7 @@ def output_netcdf_grid(
     fileID.close()
 
 # PURPOSE: output elevation file in ATLAS netCDF format
+@_replace_output
 def output_netcdf_elevation(
         FILE: str | pathlib.Path,
         h: np.ndarray,
@@ -1100,6 +1102,7 @@ def output_netcdf_elevation(
     fileID.close()
 
 # PURPOSE: output transport file in ATLAS netCDF format
+@_replace_output
 def output_netcdf_transport(
         FILE: str | pathlib.Path,
         u: np.ndarray,
diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index da35078..f9c6d74 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -110,7 +110,7 @@ import numpy as np
 import pyTMD.version
 import pyTMD.interpolate
 import pyTMD.io.constituents
-from pyTMD.utilities import import_dependency
+from pyTMD.utilities import import_dependency, _replace_output
 
 # attempt imports
 netCDF4 = import_dependency('netCDF4')
@@ -759,6 +759,7 @@ def read_netcdf_file(
     return (hc, lon, lat)
 
 # PURPOSE: output tidal constituent file in FES2014/2022 format
+@_replace_output
 def output_netcdf_file(
         FILE: str | pathlib.Path,
         hc: np.ndarray,
diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index e3668a4..8bfb1b3 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -97,7 +97,7 @@ import numpy as np
 import pyTMD.version
 import pyTMD.interpolate
 import pyTMD.io.constituents
-from pyTMD.utilities import import_dependency
+from pyTMD.utilities import import_dependency, _replace_output
 
 # attempt imports
 netCDF4 = import_dependency('netCDF4')
@@ -677,6 +677,7 @@ def read_netcdf_file(
     return (hc, lon, lat, cons)
 
 # PURPOSE: output tidal constituent file in GOT netCDF format
+@_replace_output
 def output_netcdf_file(
         FILE: str | pathlib.Path,
         hc: np.ndarray,
diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index 72080f8..a00df40 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -65,6 +65,7 @@ import pathlib
 import builtins
 import tempfile
 import warnings
+import functools
 import importlib
 import posixpath
 import subprocess
@@ -627,6 +628,30 @@ def _atomic_open(local: pathlib.Path):
             os.unlink(temp)
         raise
 
+# PURPOSE: write to a temporary file that replaces the output once complete
+def _replace_output(func):
+    """
+    Decorator for functions that write a file so that the output file
+    is replaced only once it has been completely written
+
+    Parameters
+    ----------
+    func: obj
+        function with the path to the output file as first argument
+    """
+    @functools.wraps(func)
+    def wrapper(FILE, *args, **kwargs):
+        # keep symbolic links to files in other directories
+        FILE = pathlib.Path(FILE).expanduser().resolve()
+        temp = tempfile.mkdtemp(prefix='.', suffix='.part', dir=FILE.parent)
+        try:
+            func(pathlib.Path(temp, FILE.name), *args, **kwargs)
+            os.replace(os.path.join(temp, FILE.name), FILE)
+        finally:
+            shutil.rmtree(temp, ignore_errors=True)
+    # return the decorated function
+    return wrapper
+
 # PURPOSE: download a file from a ftp host
 def from_ftp(
         HOST: str | list,
-- 
2.43.0


From 53e5ae3f9ffcdeb7e44dc60001139ec452ed6e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 38/95] fix: keep the models of the database when loading
 additional databases

---
 pyTMD/io/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index ce00fd7..358e62f 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -126,7 +126,8 @@ def load_database(extra_databases: list = []):
     # load any additional databases
     for db in extra_databases:
         with open(db, 'r', encoding='utf-8') as fid:
-            parameters.update(json.load(fid))
+            for key, val in json.load(fid).items():
+                parameters.setdefault(key, {}).update(val)
     # return parameters
     return DataBase(**parameters)
 
-- 
2.43.0


From b67f8980a6b3347cf249c0e1d9c3c02c53adf373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 39/95] fix: only verify files of models when requested, and
 not directories

---
 pyTMD/io/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 358e62f..9ff75e6 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -617,11 +617,11 @@ class model:
         # complete model file paths
         if isinstance(model_file, list):
             output_file = [self.pathfinder(f) for f in model_file]
-            valid = all([f.exists() for f in output_file])
+            valid = True
         elif isinstance(model_file, str):
             output_file = self.directory.joinpath(
                 ''.join([model_file, self.gzip]))
-            valid = output_file.exists()
+            valid = (not self.verify) or output_file.is_file()
         # check that (all) output files exist
         if self.verify and not valid:
             raise FileNotFoundError(output_file)
-- 
2.43.0


From 9ae0ea100402a918262e3937cde7e170be0c8da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:45 +0000
Subject: [PATCH 40/95] fix: do not keep parameters of previously loaded models

---
 pyTMD/io/model.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 9ff75e6..d9a5c9c 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -243,6 +243,7 @@ class model:
             self.directory = pathlib.Path().absolute()
         # select between known tide models
         parameters = load_database(extra_databases=extra_databases)
+        self._reset()
         # try to extract parameters for model
         try:
             self.from_dict(parameters['elevation'][m])
@@ -276,6 +277,7 @@ class model:
             self.directory = pathlib.Path().absolute()
         # select between tide models
         parameters = load_database(extra_databases=extra_databases)
+        self._reset()
         # try to extract parameters for model
         try:
             self.from_dict(parameters['current'][m])
@@ -689,6 +691,7 @@ class model:
         # load JSON file
         parameters = json.load(fid)
         # convert from dictionary to model variable
+        self._reset()
         temp = self.from_dict(parameters)
         # verify model name, format and type
         assert temp.name
@@ -848,6 +851,13 @@ class model:
         # assert that tide model is a known format
         assert self.format in self.formats()
 
+    def _reset(self):
+        """Resets the model parameters to their initial values
+        """
+        kwds = {k: getattr(self, k) for k in ('directory','compressed','verify')}
+        vars(self).clear()
+        self.__init__(**kwds)
+
     def from_dict(self, d: dict):
         """
         Create a model object from a python dictionary
-- 
2.43.0


From 608fd3b52b860a6f2920b1337b052bfaecc8cb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 41/95] fix: load model files found by glob strings in a fixed
 order

---
 pyTMD/io/model.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index d9a5c9c..1e6dbfc 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -716,24 +716,24 @@ class model:
                     # search singular glob string or iterable glob strings
                     if isinstance(glob_string, str):
                         # singular glob string
-                        temp.model_file[key] = list(temp.directory.glob(glob_string))
+                        temp.model_file[key] = sorted(temp.directory.glob(glob_string))
                     elif isinstance(glob_string, Iterable):
                         # iterable glob strings
                         temp.model_file[key] = []
                         for p in glob_string:
-                            temp.model_file[key].extend(temp.directory.glob(p))
+                            temp.model_file[key].extend(sorted(temp.directory.glob(p)))
             elif (temp.type == 'z') and (temp.directory is not None):
                 # use glob strings to find files in directory
                 glob_string = copy.copy(temp.model_file)
                 # search singular glob string or iterable glob strings
                 if isinstance(glob_string, str):
                     # singular glob string
-                    temp.model_file = list(temp.directory.glob(glob_string))
+                    temp.model_file = sorted(temp.directory.glob(glob_string))
                 elif isinstance(glob_string, Iterable):
                     # iterable glob strings
                     temp.model_file = []
                     for p in glob_string:
-                        temp.model_file.extend(temp.directory.glob(p))
+                        temp.model_file.extend(sorted(temp.directory.glob(p)))
             elif (temp.type == ['u','v']) and isinstance(temp.model_file, dict):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
@@ -760,24 +760,24 @@ class model:
                     # search singular glob string or iterable glob strings
                     if isinstance(glob_string, str):
                         # singular glob string
-                        temp.model_file[key] = list(temp.directory.glob(glob_string))
+                        temp.model_file[key] = sorted(temp.directory.glob(glob_string))
                     elif isinstance(glob_string, Iterable):
                         # iterable glob strings
                         temp.model_file[key] = []
                         for p in glob_string:
-                            temp.model_file[key].extend(temp.directory.glob(p))
+                            temp.model_file[key].extend(sorted(temp.directory.glob(p)))
             elif (temp.type == 'z') and (temp.directory is not None):
                 # use glob strings to find files in directory
                 glob_string = copy.copy(temp.model_file)
                 # search singular glob string or iterable glob strings
                 if isinstance(glob_string, str):
                     # singular glob string
-                    temp.model_file = list(temp.directory.glob(glob_string))
+                    temp.model_file = sorted(temp.directory.glob(glob_string))
                 elif isinstance(glob_string, Iterable):
                     # iterable glob strings
                     temp.model_file = []
                     for p in glob_string:
-                        temp.model_file.extend(temp.directory.glob(p))
+                        temp.model_file.extend(sorted(temp.directory.glob(p)))
                 #     raise FileNotFoundError(message) from exc
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
@@ -796,24 +796,24 @@ class model:
                     # search singular glob string or iterable glob strings
                     if isinstance(glob_string, str):
                         # singular glob string
-                        temp.model_file[key] = list(temp.directory.glob(glob_string))
+                        temp.model_file[key] = sorted(temp.directory.glob(glob_string))
                     elif isinstance(glob_string, Iterable):
                         # iterable glob strings
                         temp.model_file[key] = []
                         for p in glob_string:
-                            temp.model_file[key].extend(temp.directory.glob(p))
+                            temp.model_file[key].extend(sorted(temp.directory.glob(p)))
             elif (temp.type == 'z') and (temp.directory is not None):
                 # use glob strings to find files in directory
                 glob_string = copy.copy(temp.model_file)
                 # search singular glob string or iterable glob strings
                 if isinstance(glob_string, str):
                     # singular glob string
-                    temp.model_file = list(temp.directory.glob(glob_string))
+                    temp.model_file = sorted(temp.directory.glob(glob_string))
                 elif isinstance(glob_string, Iterable):
                     # iterable glob strings
                     temp.model_file = []
                     for p in glob_string:
-                        temp.model_file.extend(temp.directory.glob(p))
+                        temp.model_file.extend(sorted(temp.directory.glob(p)))
             elif (temp.type == ['u','v']):
                 # resolve paths to model files for each direction
                 for key, model_file in temp.model_file.items():
-- 
2.43.0


From 5e13f1429b8e39607bb1fa58969bc61133d058af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 42/95] fix: load definitions from open files and leave streams
 unchanged

---
 pyTMD/io/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 1e6dbfc..0735dfa 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -646,7 +646,12 @@ class model:
         kwargs.setdefault('format', 'json')
         # Opening definition file and assigning file ID number
         if isinstance(definition_file, io.IOBase):
-            fid = copy.copy(definition_file)
+            # read from a copy and return to the original position
+            position = definition_file.tell() if definition_file.seekable() else None
+            data = definition_file.read()
+            if position is not None:
+                definition_file.seek(position)
+            fid = io.BytesIO(data) if isinstance(data, bytes) else io.StringIO(data)
         else:
             definition_file = pathlib.Path(definition_file).expanduser()
             fid = definition_file.open(mode='r', encoding='utf8')
-- 
2.43.0


From f4ff0a9e7f094a8abbc10897e4c06a25f5c468ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:40 +0000
Subject: [PATCH 43/95] fix: save and load compressed models and single model
 files

---
 pyTMD/io/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 0735dfa..dd56e80 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -894,6 +894,9 @@ class model:
         # set default keyword arguments
         kwargs.setdefault('fields', keys)
         kwargs.setdefault('serialize', False)
+        # add optional parameters if set for model
+        if kwargs['fields'] is keys:
+            keys += [k for k in ('compressed','minor','flexure') if getattr(self, k)]
         # output dictionary
         d = {}
         # for each field
@@ -920,7 +923,7 @@ class model:
             val = copy.copy(d[key])
             if isinstance(val, pathlib.Path):
                 d[key] = str(val)
-            elif isinstance(val, (list, tuple)) and isinstance(val[0], pathlib.Path):
+            elif isinstance(val, (list, tuple)) and any(isinstance(v, pathlib.Path) for v in val):
                 d[key] = [str(v) for v in val]
             elif isinstance(val, dict):
                 d[key] = self.serialize(val)
-- 
2.43.0


From bff3c06b53f919704cb2f8d8917692327e1460b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 44/95] fix: load all constituents from definitions with single
 model files

---
 pyTMD/io/model.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index dd56e80..12be6e6 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -703,6 +703,12 @@ class model:
         temp.validate_format()
         assert temp.type
         assert temp.model_file
+        # use lists for single model files
+        if (temp.directory is None) and isinstance(temp.model_file, dict):
+            temp.model_file = {key: [val] if isinstance(val, str) else val
+                for key, val in temp.model_file.items()}
+        elif (temp.directory is None) and isinstance(temp.model_file, str):
+            temp.model_file = [temp.model_file]
         # split model file into list if an ATLAS, GOT or FES file
         # model files can be comma, tab or space delimited
         # extract full path to tide model files
@@ -828,6 +834,14 @@ class model:
                 # resolve paths to model files
                 temp.model_file = [pathlib.Path(f).expanduser() for f in
                     temp.model_file]
+        # single files of projected models contain multiple constituents
+        if temp.format in ('OTIS','ATLAS-compact','TMD3'):
+            single = lambda val: val[0] if (len(val) == 1) else val
+            if isinstance(temp.model_file, dict):
+                temp.model_file = {key: single(val) for key, val in
+                    temp.model_file.items()}
+            else:
+                temp.model_file = single(temp.model_file)
         # verify that projection attribute exists for projected models
         if temp.format in ('OTIS','ATLAS-compact','TMD3'):
             assert temp.projection
-- 
2.43.0


From c41366db8fb90d52730bde6907065b882b61eccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:49 +0000
Subject: [PATCH 45/95] fix: pair constituents with the model files found by
 glob strings

---
 pyTMD/io/model.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 12be6e6..f0550d8 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -852,8 +852,12 @@ class model:
         # get model constituents from constituent files
         if temp.format in ('FES-ascii','FES-netcdf',):
             assert temp.version
-            if (temp.constituents is None):
+            constituents = temp.constituents
+            if (constituents is None) or (temp.directory is not None):
                 temp.parse_constituents()
+            # use constituents of definition if not in the file names
+            if (constituents is not None) and (None in temp.constituents):
+                temp.constituents = constituents
         # return the model parameters
         return temp
 
@@ -962,6 +966,12 @@ class model:
             isinstance(self.model_file['u'], list):
             # multiple file currents case
             self.constituents = [self.parse_file(f) for f in self.model_file['u']]
+        # verify that both components have the same constituents
+        if isinstance(self.model_file, dict) and \
+            isinstance(self.model_file.get('v'), list):
+            v = [self.parse_file(f) for f in self.model_file['v']]
+            if (v != self.constituents):
+                raise ValueError('Constituents differ between components')
         # return the model parameters
         return self
 
-- 
2.43.0


From f7b494fdfbb3388605963596bdc7c7ee873104a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:49 +0000
Subject: [PATCH 46/95] fix: do not share lists between models and their
 definitions

---
 pyTMD/io/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index f0550d8..94ceca1 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -891,7 +891,7 @@ class model:
             Python dictionary for creating model object
         """
         for key, val in d.items():
-            setattr(self, key, copy.copy(val))
+            setattr(self, key, copy.deepcopy(val))
         # return the model parameters
         return self
 
-- 
2.43.0


From 944a2e7f81853d669613eaaffea55ab82c70f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:08 +0000
Subject: [PATCH 47/95] fix: accept the documented FES-ascii format in
 definition files

---
 pyTMD/io/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 94ceca1..c36d933 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -461,7 +461,8 @@ class model:
         # load the database of model parameters
         parameters = load_database()
         # extract all known formats
-        format_list = []
+        # (there are no FES-ascii models in the database)
+        format_list = ['FES-ascii']
         for variable, models in parameters.items():
             for model, val in models.items():
                 format_list.append(val['format'])
-- 
2.43.0


From b0d66860f94b9a7fe190d1f68f799f9bf35cdf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 48/95] fix: return independent copies of the constituents when
 getting fields

---
 pyTMD/io/constituents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/constituents.py b/pyTMD/io/constituents.py
index e8308f7..6703d4b 100644
--- a/pyTMD/io/constituents.py
+++ b/pyTMD/io/constituents.py
@@ -82,7 +82,7 @@ class constituents:
             Tide model constituent (complex form)
         """
         constituent = getattr(self, field)
-        return copy.copy(constituent)
+        return copy.deepcopy(constituent)
 
     def pop(self, field: str):
         """
-- 
2.43.0


From 5b4b57738286a17c672b9de16d5dd238776409ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 49/95] fix: use the same test for global OTIS models when
 caching constituents

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index a892f53..9a96cd9 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -614,7 +614,7 @@ def read_constants(
             buffer=kwargs['buffer'], is_geographic=is_geographic)
 
     # replace original values with extend arrays/matrices
-    if ((xi[-1] - xi[0]) == (360.0 - dx)) & is_geographic:
+    if np.isclose(xi[-1] - xi[0], 360.0 - dx) & is_geographic:
         xi = _extend_array(xi, dx)
         # set global grid flag
         is_global = True
-- 
2.43.0


From d22b631fa349a7542ae7c7c19697b6335a1be6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 50/95] fix: do not wrap the masks of regional OTIS models at
 their boundaries

---
 pyTMD/io/OTIS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 9a96cd9..f96ebb7 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2170,7 +2170,7 @@ def _interpolate_zeta(hz: np.ndarray, is_global: bool = True):
     # shape of input data
     ny, nx = np.shape(hz)
     # get masks for u and v nodes
-    mu, mv = _mask_nodes(hz)
+    mu, mv = _mask_nodes(hz, is_global=is_global)
     # initialize data for u and v grids
     hu = np.zeros((ny, nx), dtype=hz.dtype)
     hv = np.zeros((ny, nx), dtype=hz.dtype)
-- 
2.43.0


From 5050009b767c43e1f434094aac1db623b0155f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 51/95] fix: adjust longitudes of each point separately for
 OTIS models

---
 pyTMD/io/OTIS.py | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index f96ebb7..e9ffc34 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -300,21 +300,12 @@ def extract_constants(
     buffer = kwargs['buffer'] or 4*dx
 
     # crop mask and bathymetry data to (buffered) bounds
-    # or adjust longitudinal convention to fit tide model
     if kwargs['crop'] and np.any(bounds):
         mx, my = np.copy(xi), np.copy(yi)
         mz, xi, yi = _crop(mz, mx, my, bounds=bounds,
             buffer=buffer, is_geographic=is_geographic)
         hz, xi, yi = _crop(hz, mx, my, bounds=bounds,
             buffer=buffer, is_geographic=is_geographic)
-    elif (np.min(x) < np.min(xi)) & is_geographic:
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        x[x < 0] += 360.0
-    if (np.max(x) > np.max(xi)) & is_geographic:
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        x[x > 180] -= 360.0
 
     # if global: extend limits
     is_global = False
@@ -324,9 +315,6 @@ def extract_constants(
         # set global grid flag
         is_global = True
 
-    # determine if any input points are outside of the model bounds
-    invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
-
     # update masks for each type
     if (kwargs['type'] == 'z'):
         # replace original values with extend matrices
@@ -367,6 +355,13 @@ def extract_constants(
         # y-coordinates for v transports
         yi -= dy/2.0
 
+    # adjust longitudinal convention of each point to fit the tide model
+    if is_geographic:
+        x[x < xi.min()] += 360.0
+        x[x > xi.max()] -= 360.0
+    # determine if any input points are outside of the model bounds
+    invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
+
     # interpolate bathymetry and mask to output points
     if (kwargs['method'] == 'bilinear'):
         # replace invalid values with nan
@@ -604,7 +599,6 @@ def read_constants(
     is_global = False
 
     # crop mask and bathymetry data to (buffered) bounds
-    # or adjust longitudinal convention to fit tide model
     if kwargs['crop'] and np.any(kwargs['bounds']):
         # crop tide model data
         mx, my = np.copy(xi), np.copy(yi)
@@ -800,12 +794,10 @@ def interpolate_constants(
     # convert coordinate systems of input lat/lon
     x,y = constituents.crs.transform(ilon, ilat)
     is_geographic = constituents.crs.is_geographic
-    # adjust longitudinal convention of input latitude and longitude
-    # to fit tide model convention
-    if (np.min(x) < np.min(xi)) & is_geographic:
-        x[x < 0] += 360.0
-    if (np.max(x) > np.max(xi)) & is_geographic:
-        x[x > 180] -= 360.0
+    # adjust longitudinal convention of each point to fit the tide model
+    if is_geographic:
+        x[x < xi.min()] += 360.0
+        x[x > xi.max()] -= 360.0
     # determine if any input points are outside of the model bounds
     invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
 
-- 
2.43.0


From 2b5ef4488f47bd3a8353b52c732977223ed9a509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:39 +0000
Subject: [PATCH 52/95] fix: interpolate cached OTIS constituents as when
 extracting

---
 pyTMD/io/OTIS.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index e9ffc34..891b941 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -458,7 +458,7 @@ def extract_constants(
         # interpolate amplitude and phase of the constituent
         if (kwargs['method'] == 'bilinear'):
             # replace zero values with nan
-            hc.data[(hc==0) | hc.mask] = np.nan
+            hc.data[(hc.data == 0) | hc.mask] = np.nan
             # use quick bilinear to interpolate values
             hci = pyTMD.interpolate.bilinear(xi, yi, hc, x, y,
                 dtype=hc.dtype)
@@ -483,14 +483,14 @@ def extract_constants(
                 reducer=np.ceil,
                 bounds_error=False)
             # replace invalid values with fill_value
-            hci.mask = (hci.data == hci.fill_value) | D.mask
+            hci.mask |= (hci.data == hci.fill_value) | D.mask
             hci.data[hci.mask] = hci.fill_value
         # extrapolate data using nearest-neighbors
         if kwargs['extrapolate'] and np.any(hci.mask):
             # find invalid data points
             inv, = np.nonzero(hci.mask)
             # replace zero values with nan
-            hc.data[(hc==0) | hc.mask] = np.nan
+            hc.data[(hc.data == 0) | hc.mask] = np.nan
             # extrapolate points within cutoff of valid model points
             hci[inv] = pyTMD.interpolate.extrapolate(xi, yi, hc,
                 x[inv], y[inv], dtype=hc.dtype,
@@ -779,6 +779,7 @@ def interpolate_constants(
         bathymetry of tide model
     """
     # set default keyword arguments
+    kwargs.setdefault('type', 'z')
     kwargs.setdefault('method', 'spline')
     kwargs.setdefault('extrapolate', False)
     kwargs.setdefault('cutoff', 10.0)
@@ -802,7 +803,7 @@ def interpolate_constants(
     invalid = (x < xi.min()) | (x > xi.max()) | (y < yi.min()) | (y > yi.max())
 
     # input model bathymetry
-    bathymetry = np.ma.array(constituents.bathymetry)
+    bathymetry = np.ma.array(constituents.bathymetry, copy=True)
     bathymetry.mask = np.copy(constituents.mask)
     # interpolate depth and mask to output points
     if (kwargs['method'] == 'bilinear'):
@@ -857,11 +858,9 @@ def interpolate_constants(
                 reducer=np.ceil,
                 kx=1, ky=1)
             # replace zero values with fill_value
-            hci.mask = D.mask
+            hci.mask |= D.mask
             hci.data[hci.mask] = hci.fill_value
         else:
-            # replace zero values with fill value
-            hc.data[(hc.data == 0) | hc.mask] = fill_value
             # use scipy regular grid to interpolate values
             hci = pyTMD.interpolate.regulargrid(xi, yi, hc, x, y,
                 fill_value=fill_value,
@@ -870,14 +869,14 @@ def interpolate_constants(
                 reducer=np.ceil,
                 bounds_error=False)
             # replace invalid values with fill_value
-            hci.mask = (hci.data == hci.fill_value) | D.mask
+            hci.mask |= (hci.data == hci.fill_value) | D.mask
             hci.data[hci.mask] = hci.fill_value
         # extrapolate data using nearest-neighbors
         if kwargs['extrapolate'] and np.any(hci.mask):
             # find invalid data points
             inv, = np.nonzero(hci.mask)
             # replace zero values with nan
-            hc.data[(hc==0) | hc.mask] = np.nan
+            hc.data[(hc.data == 0) | hc.mask] = np.nan
             # extrapolate points within cutoff of valid model points
             hci[inv] = pyTMD.interpolate.extrapolate(xi, yi, hc,
                 x[inv], y[inv], dtype=hc.dtype,
-- 
2.43.0


From 7dfc4f8f6ea688234480b375d171c2d94952a4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 53/95] fix: adjust longitudes of each point separately for
 ATLAS models

---
 pyTMD/io/ATLAS.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 8e92cc9..0dd0655 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -245,21 +245,12 @@ def extract_constants(
     is_global = False
 
     # crop bathymetry data to (buffered) bounds
-    # or adjust longitudinal convention to fit tide model
     if kwargs['crop'] and np.any(bounds):
         mlon, mlat = np.copy(lon), np.copy(lat)
         bathymetry, lon, lat = _crop(bathymetry, mlon, mlat,
             bounds=bounds,
             buffer=buffer
         )
-    elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon < 0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon > 180.0] -= 360.0
 
     # replace original values with extend arrays/matrices
     if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
@@ -269,6 +260,9 @@ def extract_constants(
         is_global = True
     # create masks
     bathymetry.mask = (bathymetry.data == 0)
+    # adjust longitudinal convention of each point to fit the tide model
+    ilon[ilon < lon.min()] += 360.0
+    ilon[ilon > lon.max()] -= 360.0
     # determine if any input points are outside of the model bounds
     invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
               (ilat < lat.min()) | (ilat > lat.max())
@@ -563,16 +557,9 @@ def interpolate_constants(
     # adjust dimensions of input coordinates to be iterable
     ilon = np.atleast_1d(np.copy(ilon))
     ilat = np.atleast_1d(np.copy(ilat))
-    # adjust longitudinal convention of input latitude and longitude
-    # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon < 0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon > 180.0] -= 360.0
+    # adjust longitudinal convention of each point to fit the tide model
+    ilon[ilon < lon.min()] += 360.0
+    ilon[ilon > lon.max()] -= 360.0
     # determine if any input points are outside of the model bounds
     invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
               (ilat < lat.min()) | (ilat > lat.max())
-- 
2.43.0


From 11db2267fd64c118cc09a1a4500d1620b69d27b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 54/95] fix: interpolate cached ATLAS constituents as when
 extracting

---
 pyTMD/io/ATLAS.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 0dd0655..a2e943a 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -568,7 +568,7 @@ def interpolate_constants(
     npts = len(ilon)
     # create masked array of model bathymetry
     bathymetry = np.ma.array(constituents.bathymetry,
-        mask=constituents.mask, fill_value=0.0)
+        copy=True, mask=constituents.mask, fill_value=0.0)
     # interpolate bathymetry and mask to output points
     if (kwargs['method'] == 'bilinear'):
         # replace invalid values with nan
@@ -620,8 +620,6 @@ def interpolate_constants(
             hci.mask[:] |= np.copy(D.mask)
             hci.data[hci.mask] = hci.fill_value
         elif (kwargs['method'] == 'spline'):
-            # replace invalid values with fill value
-            hc.data[hc.mask] = fill_value
             # use scipy splines to interpolate values
             hci = pyTMD.interpolate.spline(lon, lat, hc, ilon, ilat,
                 fill_value=fill_value,
@@ -632,8 +630,6 @@ def interpolate_constants(
             hci.mask[:] |= np.copy(D.mask)
             hci.data[hci.mask] = hci.fill_value
         else:
-            # replace invalid values with fill value
-            hc.data[hc.mask] = fill_value
             # use scipy regular grid to interpolate values
             hci = pyTMD.interpolate.regulargrid(lon, lat, hc, ilon, ilat,
                 fill_value=fill_value,
-- 
2.43.0


From eb9a586dd938f01b06e91a2266c951aacf552a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 55/95] fix: adjust longitudes of each point separately for GOT
 models

---
 pyTMD/io/GOT.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 8bfb1b3..1872fb7 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -239,24 +239,18 @@ def extract_constants(
         # default buffer if cropping data
         buffer = kwargs['buffer'] or 4*dlon
         # crop tide model data to (buffered) bounds
-        # or adjust longitudinal convention to fit tide model
         if kwargs['crop'] and np.any(bounds):
             hc, lon, lat = _crop(hc, lon, lat,
                 bounds=bounds,
                 buffer=buffer,
             )
-        elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-            # input points convention (-180:180)
-            # tide model convention (0:360)
-            ilon[ilon<0.0] += 360.0
-        elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-            # input points convention (0:360)
-            # tide model convention (-180:180)
-            ilon[ilon>180.0] -= 360.0
         # replace original values with extend arrays/matrices
         if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
             lon = _extend_array(lon, dlon)
             hc = _extend_matrix(hc)
+        # adjust longitudinal convention of each point to fit the tide model
+        ilon[ilon < lon.min()] += 360.0
+        ilon[ilon > lon.max()] -= 360.0
         # interpolate amplitude and phase of the constituent
         if (kwargs['method'] == 'bilinear'):
             # replace invalid values with nan
@@ -445,16 +439,9 @@ def interpolate_constants(
     # adjust dimensions of input coordinates to be iterable
     ilon = np.atleast_1d(np.copy(ilon))
     ilat = np.atleast_1d(np.copy(ilat))
-    # adjust longitudinal convention of input latitude and longitude
-    # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon<0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon>180.0] -= 360.0
+    # adjust longitudinal convention of each point to fit the tide model
+    ilon[ilon < lon.min()] += 360.0
+    ilon[ilon > lon.max()] -= 360.0
     # number of points
     npts = len(ilon)
     # number of constituents
-- 
2.43.0


From 6bd29ec43855990a92819f2869379c1a050777e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 56/95] fix: interpolate cached GOT constituents as when
 extracting

---
 pyTMD/io/GOT.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 1872fb7..4c126aa 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -470,8 +470,6 @@ def interpolate_constants(
             hci.mask[:] |= np.isnan(hci.data)
             hci.data[hci.mask] = hci.fill_value
         elif (kwargs['method'] == 'spline'):
-            # replace invalid values with fill value
-            hc.data[hc.mask] = fill_value
             # interpolate complex form of the constituent
             # use scipy splines to interpolate values
             hci = pyTMD.interpolate.spline(lon, lat, hc, ilon, ilat,
@@ -482,8 +480,6 @@ def interpolate_constants(
             # replace invalid values with fill_value
             hci.data[hci.mask] = hci.fill_value
         else:
-            # replace invalid values with fill value
-            hc.data[hc.mask] = fill_value
             # interpolate complex form of the constituent
             # use scipy regular grid to interpolate values
             hci = pyTMD.interpolate.regulargrid(lon, lat, hc, ilon, ilat,
-- 
2.43.0


From 592db632204197fbb2a883908852ca6a06978ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 57/95] fix: adjust longitudes of each point separately for FES
 models

---
 pyTMD/io/FES.py | 25 ++++++-------------------
 1 file changed, 6 insertions(+), 19 deletions(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index f9c6d74..1726a4d 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -262,25 +262,19 @@ def extract_constants(
         # default buffer if cropping data
         buffer = kwargs['buffer'] or 4*dlon
         # crop tide model data to (buffered) bounds
-        # or adjust longitudinal convention to fit tide model
         if kwargs['crop'] and np.any(bounds):
             hc, lon, lat = _crop(hc, lon, lat,
                 bounds=bounds,
                 buffer=buffer,
             )
-        elif (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-            # input points convention (-180:180)
-            # tide model convention (0:360)
-            ilon[ilon<0.0] += 360.0
-        elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-            # input points convention (0:360)
-            # tide model convention (-180:180)
-            ilon[ilon>180.0] -= 360.0
 
         # replace original values with extend arrays/matrices
         if np.isclose(lon[-1] - lon[0], 360.0 - dlon):
             lon = _extend_array(lon, dlon)
             hc = _extend_matrix(hc)
+        # adjust longitudinal convention of each point to fit the tide model
+        ilon[ilon < lon.min()] += 360.0
+        ilon[ilon > lon.max()] -= 360.0
         # determine if any input points are outside of the model bounds
         invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
                   (ilat < lat.min()) | (ilat > lat.max())
@@ -496,16 +490,9 @@ def interpolate_constants(
     # adjust dimensions of input coordinates to be iterable
     ilon = np.atleast_1d(np.copy(ilon))
     ilat = np.atleast_1d(np.copy(ilat))
-    # adjust longitudinal convention of input latitude and longitude
-    # to fit tide model convention
-    if (np.min(ilon) < 0.0) & (np.max(lon) > 180.0):
-        # input points convention (-180:180)
-        # tide model convention (0:360)
-        ilon[ilon<0.0] += 360.0
-    elif (np.max(ilon) > 180.0) & (np.min(lon) < 0.0):
-        # input points convention (0:360)
-        # tide model convention (-180:180)
-        ilon[ilon>180.0] -= 360.0
+    # adjust longitudinal convention of each point to fit the tide model
+    ilon[ilon < lon.min()] += 360.0
+    ilon[ilon > lon.max()] -= 360.0
     # determine if any input points are outside of the model bounds
     invalid = (ilon < lon.min()) | (ilon > lon.max()) | \
               (ilat < lat.min()) | (ilat > lat.max())
-- 
2.43.0


From 9b19f410f0dafe70689a8802ff4d74c2afad2dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 58/95] fix: interpolate cached FES constituents as when
 extracting

---
 pyTMD/io/FES.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 1726a4d..10e15fe 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -524,8 +524,6 @@ def interpolate_constants(
             hci.mask[:] |= np.isnan(hci.data)
             hci.data[hci.mask] = hci.fill_value
         elif (kwargs['method'] == 'spline'):
-            # replace invalid values with fill value
-            hc.data[hc.mask] = fill_value
             # interpolate complex form of the constituent
             # use scipy splines to interpolate values
             hci = pyTMD.interpolate.spline(lon, lat, hc, ilon, ilat,
@@ -536,8 +534,6 @@ def interpolate_constants(
             # replace invalid values with fill_value
             hci.data[hci.mask] = hci.fill_value
         else:
-            # replace invalid values with fill value
-            hc.data[hc.mask] = fill_value
             # interpolate complex form of the constituent
             # use scipy regular grid to interpolate values
             hci = pyTMD.interpolate.regulargrid(lon, lat, hc, ilon, ilat,
-- 
2.43.0


From 51507859811b80d2baa791c832eef86d792caa63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 59/95] fix: extract currents of FES models from the files of
 the component

---
 pyTMD/io/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index c36d933..8fa84c3 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1081,7 +1081,7 @@ class model:
                 model_file = self.model_file
             # extract tidal constants for model type
             amp,ph = FES.extract_constants(lon, lat,
-                self.model_file, version=self.version,
+                model_file, version=self.version,
                 compressed=self.compressed, **kwargs)
             # available model constituents
             c = self.constituents
-- 
2.43.0


From c231dc7332e1aa26a8ea81f0601effbe7f2c6fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 60/95] fix: do not append nodal tides to the constituents of
 the model

---
 pyTMD/io/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 8fa84c3..eaefdd6 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1084,7 +1084,7 @@ class model:
                 model_file, version=self.version,
                 compressed=self.compressed, **kwargs)
             # available model constituents
-            c = self.constituents
+            c = copy.copy(self.constituents)
         # append node equilibrium tide if not in constituents list
         if kwargs['append_node'] and ('node' not in c):
             # calculate node equilibrium tide
-- 
2.43.0


From 6ff2d18192061834cf0ec60c6c3d354eadbafb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 61/95] fix: convert cached nodal tides to the units of the
 model

---
 pyTMD/io/model.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index eaefdd6..4ff6c51 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1163,6 +1163,9 @@ class model:
             # calculate complex phase in radians for Euler's
             cph = -1j*ph*np.pi/180.0
             hc = amp*np.exp(cph)
+            # convert from meters to the units of the model
+            if self.format not in ('OTIS','ATLAS-compact','TMD3'):
+                hc /= self.scale
             # append constituent
             c.append('node', hc)
         # return the tidal constituents
-- 
2.43.0


From 9f1d35e08c3960d3024e99608a6046e30d9d6d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 62/95] fix: read constants again when interpolating another
 component

---
 pyTMD/io/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyTMD/io/model.py b/pyTMD/io/model.py
index 4ff6c51..6cabb3c 100644
--- a/pyTMD/io/model.py
+++ b/pyTMD/io/model.py
@@ -1170,6 +1170,7 @@ class model:
             c.append('node', hc)
         # return the tidal constituents
         self._constituents = c
+        self._constituents_type = copy.copy(kwargs['type'])
         return c
 
     def interpolate_constants(self,
@@ -1201,8 +1202,10 @@ class model:
         # set default keyword arguments
         kwargs.setdefault('type', self.type)
         kwargs.setdefault('scale', self.scale)
-        # verify constituents have been read
-        if not hasattr(self, '_constituents'):
+        # verify constituents have been read for the component
+        cached = getattr(self, '_constituents_type', kwargs['type'])
+        if not hasattr(self, '_constituents') or \
+            (str(cached).lower() != str(kwargs['type']).lower()):
             self.read_constants(**kwargs)
         # interpolate tidal constants to grid points
         if self.format in ('OTIS','ATLAS-compact','TMD3'):
-- 
2.43.0


From 2c292983836fc1bb11168c121592af08b4fceaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 63/95] fix: interpolate bilinearly at the last longitude of
 models

---
 pyTMD/interpolate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/interpolate.py b/pyTMD/interpolate.py
index e3e9640..90dd2b3 100644
--- a/pyTMD/interpolate.py
+++ b/pyTMD/interpolate.py
@@ -83,7 +83,7 @@ def bilinear(
     # for each valid point
     for i in valid:
         # calculating the indices for the original grid
-        ix, = np.nonzero((ilon[0:-1] <= lon[i]) & (ilon[1:] > lon[i]))
+        ix = np.flatnonzero((ilon[0:-1] <= lon[i]) & (ilon[1:] >= lon[i]))[-1:]
         iy, = np.nonzero((ilat[0:-1] <= lat[i]) & (ilat[1:] > lat[i]))
         # corner data values for adjacent grid cells
         IM = np.ma.zeros((4), fill_value=fill_value, dtype=dtype)
-- 
2.43.0


From a33da9d71552ecf41bfe4640b20a1f04b3a9e6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 64/95] fix: read all constituents of OTIS models with a list
 of one file

---
 pyTMD/io/OTIS.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 891b941..53b1545 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -389,6 +389,9 @@ def extract_constants(
     elif kwargs['type'] in ('z','V','U'):
         unit_conv = 1.0
 
+    # single model files can contain multiple constituents
+    if isinstance(model_file,list) and (len(model_file) == 1):
+        model_file, = model_file
     # read and interpolate each constituent
     if isinstance(model_file,list):
         constituents = [read_constituents(m)[0].pop() for m in model_file]
@@ -658,6 +661,9 @@ def read_constants(
     gridx, gridy = np.meshgrid(xi, yi)
     lon, lat = crs.transform(gridx, gridy, direction='INVERSE')
 
+    # single model files can contain multiple constituents
+    if isinstance(model_file, list) and (len(model_file) == 1):
+        model_file, = model_file
     # read each constituent
     if isinstance(model_file, list):
         cons = [read_constituents(m)[0].pop() for m in model_file]
-- 
2.43.0


From e6f133ff236bdc4826486ee23defe6eea6b94dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:04 +0000
Subject: [PATCH 65/95] fix: crop transports of OTIS models to the same nodes
 as the bathymetry

---
 pyTMD/io/OTIS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 53b1545..763e66a 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -338,7 +338,7 @@ def extract_constants(
         mask = (hu == 0) | mu.astype(bool)
         bathymetry = np.ma.array(hu, mask=mask)
         # x-coordinates for u transports
-        xi -= dx/2.0
+        xi = xi - dx/2.0
     elif kwargs['type'] in ('v','V'):
         # interpolate masks and bathymetry to u, v nodes
         mu,mv = _mask_nodes(hz, is_global=is_global)
@@ -353,7 +353,7 @@ def extract_constants(
         mask = (hv == 0) | mv.astype(bool)
         bathymetry = np.ma.array(hv, mask=mask)
         # y-coordinates for v transports
-        yi -= dy/2.0
+        yi = yi - dy/2.0
 
     # adjust longitudinal convention of each point to fit the tide model
     if is_geographic:
@@ -640,7 +640,7 @@ def read_constants(
         mask = (hu == 0) | mu.astype(bool)
         bathymetry = np.ma.array(hu, mask=mask)
         # x-coordinates for u transports
-        xi -= dx/2.0
+        xi = xi - dx/2.0
     elif kwargs['type'] in ('v','V'):
         # interpolate masks and bathymetry to u, v nodes
         mu,mv = _mask_nodes(hz, is_global=is_global)
@@ -655,7 +655,7 @@ def read_constants(
         mask = (hv == 0) | mv.astype(bool)
         bathymetry = np.ma.array(hv, mask=mask)
         # y-coordinates for v transports
-        yi -= dy/2.0
+        yi = yi - dy/2.0
 
     # calculate geographic coordinates of model grid
     gridx, gridy = np.meshgrid(xi, yi)
-- 
2.43.0


From b57297096b16956fe8e761c04d2490bc940d0168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:52 +0000
Subject: [PATCH 66/95] fix: crop OTIS models to regions at the limits of the
 grid

---
 pyTMD/io/OTIS.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 763e66a..9f8e817 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2026,12 +2026,14 @@ def _crop(
         cropped y-coordinates
     """
     # adjust longitudinal convention of tide model
-    if is_geographic & (np.min(bounds[:2]) < 0.0) & (np.max(ix) > 180.0):
-        input_matrix, ix, = _shift(input_matrix, ix,
-            x0=180.0, cyclic=360.0, direction='west')
-    elif is_geographic & (np.max(bounds[:2]) > 180.0) & (np.min(ix) < 0.0):
-        input_matrix, ix, = _shift(input_matrix, ix,
-            x0=0.0, cyclic=360.0, direction='east')
+    xc = (bounds[0] + bounds[1])/2.0
+    if is_geographic and (ix[-1] - ix[0] > 360.0 - 1.5*(ix[1] - ix[0])):
+        # global model: center the grid on the bounds
+        west = np.mod(xc - 180.0 - ix[0], 360.0)
+        input_matrix, ix = _shift(input_matrix, ix,
+            x0=ix[0] + west, cyclic=360.0, direction='east')
+    if is_geographic:
+        ix = ix + 360.0*np.round((xc - (ix[0] + ix[-1])/2.0)/360.0)
     # unpack bounds and buffer
     xmin = bounds[0] - buffer
     xmax = bounds[1] + buffer
@@ -2041,8 +2043,9 @@ def _crop(
     yind = np.flatnonzero((iy >= ymin) & (iy <= ymax))
     xind = np.flatnonzero((ix >= xmin) & (ix <= xmax))
     # slices for cropping axes
-    rows = slice(yind[0], yind[-1]+1)
-    cols = slice(xind[0], xind[-1]+1)
+    # (use the complete axis if not within the model domain)
+    rows = slice(yind[0], yind[-1]+1) if (len(yind) > 1) else slice(None)
+    cols = slice(xind[0], xind[-1]+1) if (len(xind) > 1) else slice(None)
     # crop matrix
     temp = input_matrix[rows, cols]
     x = ix[cols]
@@ -2085,25 +2088,26 @@ def _shift(
         shifted x-coordinates
     """
     # find the starting index if cyclic
+    n = len(ix)
     offset = 0 if (np.fabs(ix[-1]-ix[0]-cyclic) > 1e-4) else 1
     i0 = np.argmin(np.fabs(ix - x0))
     # shift longitudinal values
     x = np.zeros(ix.shape, ix.dtype)
-    x[0:-i0] = ix[i0:]
-    x[-i0:] = ix[offset: i0+offset]
+    x[0:n-i0] = ix[i0:]
+    x[n-i0:] = ix[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        x[-i0:] += cyclic
+        x[n-i0:] += cyclic
     elif (direction == 'west'):
-        x[0:-i0] -= cyclic
+        x[0:n-i0] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:,:-i0] = input_matrix[:,i0:]
-    temp[:,-i0:] = input_matrix[:,offset: i0+offset]
+    temp[:,:n-i0] = input_matrix[:,i0:]
+    temp[:,n-i0:] = input_matrix[:,offset: i0+offset]
     # return the shifted values
     return (temp, x)
 
-- 
2.43.0


From 0c3d1fe050d2d0bc851a2e12263587e391e3010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:52 +0000
Subject: [PATCH 67/95] fix: crop ATLAS models to regions at the limits of the
 grid

---
 pyTMD/io/ATLAS.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index a2e943a..6813ee6 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -1279,12 +1279,13 @@ def _crop(
         cropped latitude
     """
     # adjust longitudinal convention of tide model
-    if (np.min(bounds[:2]) < 0.0) & (np.max(ilon) > 180.0):
+    xc = (bounds[0] + bounds[1])/2.0
+    if (ilon[-1] - ilon[0]) > (360.0 - 1.5*(ilon[1] - ilon[0])):
+        # global model: center the grid on the bounds
+        west = np.mod(xc - 180.0 - ilon[0], 360.0)
         input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=180.0, cyclic=360.0, direction='west')
-    elif (np.max(bounds[:2]) > 180.0) & (np.min(ilon) < 0.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=0.0, cyclic=360.0, direction='east')
+            lon0=ilon[0] + west, cyclic=360.0, direction='east')
+    ilon = ilon + 360.0*np.round((xc - (ilon[0] + ilon[-1])/2.0)/360.0)
     # unpack bounds and buffer
     xmin = bounds[0] - buffer
     xmax = bounds[1] + buffer
@@ -1294,8 +1295,9 @@ def _crop(
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
     xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
     # slices for cropping axes
-    rows = slice(yind[0], yind[-1]+1)
-    cols = slice(xind[0], xind[-1]+1)
+    # (use the complete axis if not within the model domain)
+    rows = slice(yind[0], yind[-1]+1) if (len(yind) > 1) else slice(None)
+    cols = slice(xind[0], xind[-1]+1) if (len(xind) > 1) else slice(None)
     # crop matrix
     temp = input_matrix[rows, cols]
     lon = ilon[cols]
@@ -1338,24 +1340,25 @@ def _shift(
         shifted longitude
     """
     # find the starting index if cyclic
+    n = len(ilon)
     offset = 0 if (np.fabs(ilon[-1]-ilon[0]-cyclic) > 1e-4) else 1
     i0 = np.argmin(np.fabs(ilon - lon0))
     # shift longitudinal values
     lon = np.zeros(ilon.shape, ilon.dtype)
-    lon[0:-i0] = ilon[i0:]
-    lon[-i0:] = ilon[offset: i0+offset]
+    lon[0:n-i0] = ilon[i0:]
+    lon[n-i0:] = ilon[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        lon[-i0:] += cyclic
+        lon[n-i0:] += cyclic
     elif (direction == 'west'):
-        lon[0:-i0] -= cyclic
+        lon[0:n-i0] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:,:-i0] = input_matrix[:,i0:]
-    temp[:,-i0:] = input_matrix[:,offset: i0+offset]
+    temp[:,:n-i0] = input_matrix[:,i0:]
+    temp[:,n-i0:] = input_matrix[:,offset: i0+offset]
     # return the shifted values
     return (temp, lon)
-- 
2.43.0


From 3fe15ae716ccfaf630b9f62990e0717b546a8c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:52 +0000
Subject: [PATCH 68/95] fix: crop GOT models to regions at the limits of the
 grid

---
 pyTMD/io/GOT.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 4c126aa..4172298 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -830,12 +830,13 @@ def _crop(
         cropped latitude
     """
     # adjust longitudinal convention of tide model
-    if (np.min(bounds[:2]) < 0.0) & (np.max(ilon) > 180.0):
+    xc = (bounds[0] + bounds[1])/2.0
+    if (ilon[-1] - ilon[0]) > (360.0 - 1.5*(ilon[1] - ilon[0])):
+        # global model: center the grid on the bounds
+        west = np.mod(xc - 180.0 - ilon[0], 360.0)
         input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=180.0, cyclic=360.0, direction='west')
-    elif (np.max(bounds[:2]) > 180.0) & (np.min(ilon) < 0.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=0.0, cyclic=360.0, direction='east')
+            lon0=ilon[0] + west, cyclic=360.0, direction='east')
+    ilon = ilon + 360.0*np.round((xc - (ilon[0] + ilon[-1])/2.0)/360.0)
     # unpack bounds and buffer
     xmin = bounds[0] - buffer
     xmax = bounds[1] + buffer
@@ -845,8 +846,9 @@ def _crop(
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
     xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
     # slices for cropping axes
-    rows = slice(yind[0], yind[-1]+1)
-    cols = slice(xind[0], xind[-1]+1)
+    # (use the complete axis if not within the model domain)
+    rows = slice(yind[0], yind[-1]+1) if (len(yind) > 1) else slice(None)
+    cols = slice(xind[0], xind[-1]+1) if (len(xind) > 1) else slice(None)
     # crop matrix
     temp = input_matrix[rows, cols]
     lon = ilon[cols]
@@ -889,24 +891,25 @@ def _shift(
         shifted longitude
     """
     # find the starting index if cyclic
+    n = len(ilon)
     offset = 0 if (np.fabs(ilon[-1]-ilon[0]-cyclic) > 1e-4) else 1
     i0 = np.argmin(np.fabs(ilon - lon0))
     # shift longitudinal values
     lon = np.zeros(ilon.shape, ilon.dtype)
-    lon[0:-i0] = ilon[i0:]
-    lon[-i0:] = ilon[offset: i0+offset]
+    lon[0:n-i0] = ilon[i0:]
+    lon[n-i0:] = ilon[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        lon[-i0:] += cyclic
+        lon[n-i0:] += cyclic
     elif (direction == 'west'):
-        lon[0:-i0] -= cyclic
+        lon[0:n-i0] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:,:-i0] = input_matrix[:,i0:]
-    temp[:,-i0:] = input_matrix[:,offset: i0+offset]
+    temp[:,:n-i0] = input_matrix[:,i0:]
+    temp[:,n-i0:] = input_matrix[:,offset: i0+offset]
     # return the shifted values
     return (temp, lon)
-- 
2.43.0


From 39adf92ce05319a6f2b617df58f749fe0167475f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:52 +0000
Subject: [PATCH 69/95] fix: crop FES models to regions at the limits of the
 grid

---
 pyTMD/io/FES.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index 10e15fe..aa2dee6 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -944,12 +944,13 @@ def _crop(
         cropped latitude
     """
     # adjust longitudinal convention of tide model
-    if (np.min(bounds[:2]) < 0.0) & (np.max(ilon) > 180.0):
+    xc = (bounds[0] + bounds[1])/2.0
+    if (ilon[-1] - ilon[0]) > (360.0 - 1.5*(ilon[1] - ilon[0])):
+        # global model: center the grid on the bounds
+        west = np.mod(xc - 180.0 - ilon[0], 360.0)
         input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=180.0, cyclic=360.0, direction='west')
-    elif (np.max(bounds[:2]) > 180.0) & (np.min(ilon) < 0.0):
-        input_matrix, ilon = _shift(input_matrix, ilon,
-            lon0=0.0, cyclic=360.0, direction='east')
+            lon0=ilon[0] + west, cyclic=360.0, direction='east')
+    ilon = ilon + 360.0*np.round((xc - (ilon[0] + ilon[-1])/2.0)/360.0)
     # unpack bounds and buffer
     xmin = bounds[0] - buffer
     xmax = bounds[1] + buffer
@@ -959,8 +960,9 @@ def _crop(
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
     xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
     # slices for cropping axes
-    rows = slice(yind[0], yind[-1]+1)
-    cols = slice(xind[0], xind[-1]+1)
+    # (use the complete axis if not within the model domain)
+    rows = slice(yind[0], yind[-1]+1) if (len(yind) > 1) else slice(None)
+    cols = slice(xind[0], xind[-1]+1) if (len(xind) > 1) else slice(None)
     # crop matrix
     temp = input_matrix[rows, cols]
     lon = ilon[cols]
@@ -1003,24 +1005,25 @@ def _shift(
         shifted longitude
     """
     # find the starting index if cyclic
+    n = len(ilon)
     offset = 0 if (np.fabs(ilon[-1]-ilon[0]-cyclic) > 1e-4) else 1
     i0 = np.argmin(np.fabs(ilon - lon0))
     # shift longitudinal values
     lon = np.zeros(ilon.shape, ilon.dtype)
-    lon[0:-i0] = ilon[i0:]
-    lon[-i0:] = ilon[offset: i0+offset]
+    lon[0:n-i0] = ilon[i0:]
+    lon[n-i0:] = ilon[offset: i0+offset]
     # add or remove the cyclic
     if (direction == 'east'):
-        lon[-i0:] += cyclic
+        lon[n-i0:] += cyclic
     elif (direction == 'west'):
-        lon[0:-i0] -= cyclic
+        lon[0:n-i0] -= cyclic
     # allocate for shifted data
     if np.ma.isMA(input_matrix):
         temp = np.ma.zeros(input_matrix.shape,input_matrix.dtype)
     else:
         temp = np.zeros(input_matrix.shape, input_matrix.dtype)
     # shift data values
-    temp[:,:-i0] = input_matrix[:,i0:]
-    temp[:,-i0:] = input_matrix[:,offset: i0+offset]
+    temp[:,:n-i0] = input_matrix[:,i0:]
+    temp[:,n-i0:] = input_matrix[:,offset: i0+offset]
     # return the shifted values
     return (temp, lon)
-- 
2.43.0


From 3ba2fca04f47bb3d374a7931a70134380d23a051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 70/95] fix: crop OTIS models to bounds in an array

---
 pyTMD/io/OTIS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 9f8e817..6c0be01 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -295,7 +295,9 @@ def extract_constants(
     # default bounds if cropping data
     xmin, xmax = np.min(x), np.max(x)
     ymin, ymax = np.min(y), np.max(y)
-    bounds = kwargs['bounds'] or [xmin, xmax, ymin, ymax]
+    bounds = kwargs['bounds']
+    if bounds is None:
+        bounds = [xmin, xmax, ymin, ymax]
     # default buffer if cropping data
     buffer = kwargs['buffer'] or 4*dx
 
-- 
2.43.0


From 7cf5a1954928c8d26b676d9e8290afc66764256d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 71/95] fix: crop ATLAS models to bounds in an array

---
 pyTMD/io/ATLAS.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 6813ee6..83728df 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -236,7 +236,9 @@ def extract_constants(
     # default bounds if cropping
     xmin, xmax = np.min(ilon), np.max(ilon)
     ymin, ymax = np.min(ilat), np.max(ilat)
-    bounds = kwargs['bounds'] or [xmin, xmax, ymin, ymax]
+    bounds = kwargs['bounds']
+    if bounds is None:
+        bounds = [xmin, xmax, ymin, ymax]
     # grid step size of tide model
     dlon = lon[1] - lon[0]
     # default buffer if cropping data
-- 
2.43.0


From d0f32c06de135f389337a247a1ec022e0d73474d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 72/95] fix: crop GOT models to bounds in an array

---
 pyTMD/io/GOT.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index 4172298..b59a818 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -206,7 +206,9 @@ def extract_constants(
     # default bounds if cropping
     xmin, xmax = np.min(ilon), np.max(ilon)
     ymin, ymax = np.min(ilat), np.max(ilat)
-    bounds = kwargs['bounds'] or [xmin, xmax, ymin, ymax]
+    bounds = kwargs['bounds']
+    if bounds is None:
+        bounds = [xmin, xmax, ymin, ymax]
     # number of points
     npts = len(ilon)
     # number of constituents
-- 
2.43.0


From 36da5001ea4d52a2a061107db9053fe3011ce05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 73/95] fix: crop FES models to bounds in an array

---
 pyTMD/io/FES.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index aa2dee6..db738cc 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -233,7 +233,9 @@ def extract_constants(
     # default bounds if cropping
     xmin, xmax = np.min(ilon), np.max(ilon)
     ymin, ymax = np.min(ilat), np.max(ilat)
-    bounds = kwargs['bounds'] or [xmin, xmax, ymin, ymax]
+    bounds = kwargs['bounds']
+    if bounds is None:
+        bounds = [xmin, xmax, ymin, ymax]
     # number of points
     npts = len(ilon)
     # number of constituents
-- 
2.43.0


From ae387ebfb8c12b6c17a78879e9371379891e5f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 74/95] fix: infer zeros if there are too few major
 constituents

---
 pyTMD/predict.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 9ee04ac..68ccaad 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -325,7 +325,10 @@ def infer_minor(
     # list of minor constituents
     kwargs.setdefault('minor', None)
     # infer the minor tidal constituents
-    dh = 0.0
+    npts = len(np.ma.atleast_2d(zmajor))
+    nt = len(np.atleast_1d(t))
+    n = nt if ((npts == 1) & (nt > 1)) else npts
+    dh = np.ma.zeros((n))
     # infer short-period tides for minor constituents
     if kwargs['corrections'] in ('GOT',):
         dh += _infer_semi_diurnal(t, zmajor, constituents, **kwargs)
-- 
2.43.0


From 0bd7dd337eb9c17eda3d250a6926bc6ecc5a4610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:54 +0000
Subject: [PATCH 75/95] fix: infer the first of the minor constituents on its
 own

---
 pyTMD/predict.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/predict.py b/pyTMD/predict.py
index 68ccaad..aa94483 100644
--- a/pyTMD/predict.py
+++ b/pyTMD/predict.py
@@ -419,7 +419,7 @@ def _infer_short_period(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No short-period tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
@@ -567,7 +567,7 @@ def _infer_semi_diurnal(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No semi-diurnal tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
@@ -728,7 +728,7 @@ def _infer_diurnal(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No diurnal tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
@@ -881,7 +881,7 @@ def _infer_long_period(
         if (m not in constituents) and (m in minor)]
     # if there are no constituents to infer
     msg = 'No long-period tidal constituents to infer'
-    if not np.any(minor_indices):
+    if not minor_indices:
         logging.debug(msg)
         return 0.0
 
-- 
2.43.0


From 814f619399f3d10d495616275f7266d6853397f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 76/95] fix: read the mask of the model in its own format in
 tide_masks

---
 pyTMD/compute.py | 30 ++++++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index bf54ce0..3b67c8e 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -725,7 +725,15 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
     )
 
     # read tidal constants and interpolate to grid points
-    if model.format in ('OTIS','ATLAS-compact','TMD3'):
+    if (model.format == 'TMD3'):
+        # if reading a single TMD3 netCDF4 solution
+        xi, yi, hz, mz, sf = pyTMD.io.OTIS.read_netcdf_grid(
+            pathlib.Path(model.grid_file).expanduser())
+        # invert model mask
+        mz = np.logical_not(mz)
+        # run wrapper function to convert coordinate systems of input lat/lon
+        X, Y = pyTMD.crs().convert(lon, lat, model.projection, 'F')
+    elif model.format in ('OTIS','ATLAS-compact'):
         # if reading a single OTIS solution
         xi, yi, hz, mz, iob, dt = pyTMD.io.OTIS.read_otis_grid(
             pathlib.Path(model.grid_file).expanduser())
@@ -738,7 +746,7 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         # if reading a netCDF OTIS atlas solution
         xi, yi, hz = pyTMD.io.ATLAS.read_netcdf_grid(
             pathlib.Path(model.grid_file).expanduser(),
-            compressed=model.compressed, type=model.type)
+            model.type, compressed=model.compressed)
         # copy bathymetry mask
         mz = np.copy(hz.mask)
         # copy latitude and longitude and adjust longitudes
@@ -746,8 +754,13 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         lt0, = np.nonzero(X < 0)
         X[lt0] += 360.0
     elif model.format in ('GOT-ascii', 'GOT-netcdf'):
+        # function to read the format of the NASA GOT solution
+        if (model.format == 'GOT-ascii'):
+            read_file = pyTMD.io.GOT.read_ascii_file
+        else:
+            read_file = pyTMD.io.GOT.read_netcdf_file
         # if reading a NASA GOT solution
-        hc, xi, yi, c = pyTMD.io.GOT.read_ascii_file(
+        hc, xi, yi, c = read_file(
             pathlib.Path(model.model_file[0]).expanduser(),
             compressed=model.compressed)
         # copy tidal constituent mask
@@ -756,9 +769,14 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         X, Y = np.copy([lon,lat]).astype(np.float64)
         lt0, = np.nonzero(X < 0)
         X[lt0] += 360.0
-    elif (model.format == 'FES-netcdf'):
-        # if reading a FES netCDF solution
-        hc, xi, yi = pyTMD.io.FES.read_netcdf_file(
+    elif model.format in ('FES-ascii', 'FES-netcdf'):
+        # function to read the format of the FES solution
+        if (model.format == 'FES-ascii'):
+            read_file = pyTMD.io.FES.read_ascii_file
+        else:
+            read_file = pyTMD.io.FES.read_netcdf_file
+        # if reading a FES solution
+        hc, xi, yi = read_file(
             pathlib.Path(model.model_file[0]).expanduser(),
             compressed=model.compressed, type=model.type,
             version=model.version)
-- 
2.43.0


From 0d9eea84a4bfa5268b7afc9d18bc3e94aa5544c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 77/95] fix: interpolate masks at the coordinates of the model
 in tide_masks

---
 pyTMD/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 3b67c8e..7065f55 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -800,7 +800,7 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
         # use scipy regular grid to interpolate values
         r1 = scipy.interpolate.RegularGridInterpolator((yi, xi), mz,
             method=METHOD, bounds_error=False, fill_value=1)
-        mask = np.floor(r1.__call__(np.c_[y, x])).astype(mz.dtype)
+        mask = np.floor(r1.__call__(np.c_[Y, X])).astype(mz.dtype)
 
     # reshape to original dimensions
     valid = np.logical_not(mask).reshape(idim).astype(mz.dtype)
-- 
2.43.0


From 0439ca9e04bf849a7c26dc5f2db1ba769fe7fca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 78/95] fix: check grids of points in tide_masks

---
 pyTMD/compute.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index 7065f55..ddf5a22 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -802,13 +802,13 @@ def tide_masks(x: np.ndarray, y: np.ndarray,
             method=METHOD, bounds_error=False, fill_value=1)
         mask = np.floor(r1.__call__(np.c_[Y, X])).astype(mz.dtype)
 
-    # reshape to original dimensions
-    valid = np.logical_not(mask).reshape(idim).astype(mz.dtype)
+    # find valid points
+    valid = np.logical_not(mask).astype(mz.dtype)
     # replace points outside model domain with invalid
     valid &= (X >= xi.min()) & (X <= xi.max())
     valid &= (Y >= yi.min()) & (Y <= yi.max())
-    # return the valid mask
-    return valid
+    # return the valid mask with the original dimensions
+    return valid.reshape(idim)
 
 # PURPOSE: compute long-period equilibrium tidal elevations
 def LPET_elevations(
-- 
2.43.0


From e3a7976e305687ea28ba282ca445e89ff1494001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:29 +0000
Subject: [PATCH 79/95] fix: iterate over constituents independently of other
 iterations

---
 pyTMD/io/constituents.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyTMD/io/constituents.py b/pyTMD/io/constituents.py
index 6703d4b..7bb9b80 100644
--- a/pyTMD/io/constituents.py
+++ b/pyTMD/io/constituents.py
@@ -288,8 +288,7 @@ class constituents:
     def __iter__(self):
         """Iterate over constituents
         """
-        self.__index__ = 0
-        return self
+        return iter([(field, getattr(self, field)) for field in self.fields])
 
     def __next__(self):
         """Get the next constituent
-- 
2.43.0


From e4e6352c85b57b0bb0b16bc585c97c8eacf892bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:09 +0000
Subject: [PATCH 80/95] fix: compute gridded solid earth tides at the times
 that were given

---
 pyTMD/compute.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/compute.py b/pyTMD/compute.py
index ddf5a22..c822052 100644
--- a/pyTMD/compute.py
+++ b/pyTMD/compute.py
@@ -1480,7 +1480,7 @@ def SET_displacements(
         XYZ = np.c_[X, Y, Z]
         for i in range(nt):
             # reshape time to match spatial
-            t = tide_time[i] + np.ones((ny*nx))
+            t = tide_time[i] + np.zeros((ny*nx))
             # convert coordinates to column arrays
             SXYZ = np.repeat(np.c_[SX[i], SY[i], SZ[i]], ny*nx, axis=0)
             LXYZ = np.repeat(np.c_[LX[i], LY[i], LZ[i]], ny*nx, axis=0)
-- 
2.43.0


From 60f4f3f4fb09b274247eec0ae65d6e93bf1094e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:22 +0000
Subject: [PATCH 81/95] fix: compute gridded solid earth tides at the times of
 the input file

---
 scripts/compute_SET_displacements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 2998f85..32638c1 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -276,7 +276,7 @@ def compute_SET_displacements(input_file, output_file,
         XYZ = np.c_[X, Y, Z]
         for i in range(nt):
             # reshape time to match spatial
-            t = tide_time[i] + np.ones((ny*nx))
+            t = tide_time[i] + np.zeros((ny*nx))
             # convert coordinates to column arrays
             SXYZ = np.repeat(np.c_[SX[i], SY[i], SZ[i]], ny*nx, axis=0)
             LXYZ = np.repeat(np.c_[LX[i], LY[i], LZ[i]], ny*nx, axis=0)
-- 
2.43.0


From 4108d2e495e7c3833d50641b911bc3dcecf4f75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 82/95] fix: crop ATLAS models to regions given in mixed
 longitudes

---
 pyTMD/io/ATLAS.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/ATLAS.py b/pyTMD/io/ATLAS.py
index 83728df..7ca8570 100644
--- a/pyTMD/io/ATLAS.py
+++ b/pyTMD/io/ATLAS.py
@@ -1295,7 +1295,7 @@ def _crop(
     ymax = bounds[3] + buffer
     # find indices for cropping
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
-    xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
+    xind = np.flatnonzero(np.mod(ilon - xmin, 360.0) <= (xmax - xmin))
     # slices for cropping axes
     # (use the complete axis if not within the model domain)
     rows = slice(yind[0], yind[-1]+1) if (len(yind) > 1) else slice(None)
-- 
2.43.0


From a13c271fb52a0030cd4175b77f739e680c881d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 83/95] fix: crop GOT models to regions given in mixed
 longitudes

---
 pyTMD/io/GOT.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/GOT.py b/pyTMD/io/GOT.py
index b59a818..2aede11 100644
--- a/pyTMD/io/GOT.py
+++ b/pyTMD/io/GOT.py
@@ -846,7 +846,7 @@ def _crop(
     ymax = bounds[3] + buffer
     # find indices for cropping
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
-    xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
+    xind = np.flatnonzero(np.mod(ilon - xmin, 360.0) <= (xmax - xmin))
     # slices for cropping axes
     # (use the complete axis if not within the model domain)
     rows = slice(yind[0], yind[-1]+1) if (len(yind) > 1) else slice(None)
-- 
2.43.0


From e2d9837c062de197c6f122644ccf84c10214a6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 84/95] fix: crop FES models to regions given in mixed
 longitudes

---
 pyTMD/io/FES.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/io/FES.py b/pyTMD/io/FES.py
index db738cc..1c894ec 100644
--- a/pyTMD/io/FES.py
+++ b/pyTMD/io/FES.py
@@ -960,7 +960,7 @@ def _crop(
     ymax = bounds[3] + buffer
     # find indices for cropping
     yind = np.flatnonzero((ilat >= ymin) & (ilat <= ymax))
-    xind = np.flatnonzero((ilon >= xmin) & (ilon <= xmax))
+    xind = np.flatnonzero(np.mod(ilon - xmin, 360.0) <= (xmax - xmin))
     # slices for cropping axes
     # (use the complete axis if not within the model domain)
     rows = slice(yind[0], yind[-1]+1) if (len(yind) > 1) else slice(None)
-- 
2.43.0


From fb37ab5c3880a9cecdfff62f7fd0897b55ae9747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:00 +0000
Subject: [PATCH 85/95] fix: crop OTIS models to regions given in mixed
 longitudes

---
 pyTMD/io/OTIS.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyTMD/io/OTIS.py b/pyTMD/io/OTIS.py
index 6c0be01..cd7d7eb 100644
--- a/pyTMD/io/OTIS.py
+++ b/pyTMD/io/OTIS.py
@@ -2043,7 +2043,8 @@ def _crop(
     ymax = bounds[3] + buffer
     # find indices for cropping
     yind = np.flatnonzero((iy >= ymin) & (iy <= ymax))
-    xind = np.flatnonzero((ix >= xmin) & (ix <= xmax))
+    xind = np.flatnonzero(np.mod(ix - xmin, 360.0) <= (xmax - xmin)) \
+        if is_geographic else np.flatnonzero((ix >= xmin) & (ix <= xmax))
     # slices for cropping axes
     # (use the complete axis if not within the model domain)
     rows = slice(yind[0], yind[-1]+1) if (len(yind) > 1) else slice(None)
-- 
2.43.0


From e866980daa9cc50b5104654b316e26aefe454ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:13 +0000
Subject: [PATCH 86/95] fix: complete partial dates independently of the
 current date

---
 pyTMD/utilities.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyTMD/utilities.py b/pyTMD/utilities.py
index a00df40..60b29f1 100644
--- a/pyTMD/utilities.py
+++ b/pyTMD/utilities.py
@@ -62,6 +62,7 @@ import inspect
 import hashlib
 import logging
 import pathlib
+import datetime
 import builtins
 import tempfile
 import warnings
@@ -410,7 +411,8 @@ def get_unix_time(
         return calendar.timegm(parsed_time) - (parsed_time.tm_gmtoff or 0)
     # try parsing with dateutil
     try:
-        parsed_time = dateutil.parser.parse(time_string.rstrip())
+        parsed_time = dateutil.parser.parse(time_string.rstrip(),
+            default=datetime.datetime(1970, 1, 1))
     except (TypeError, ValueError):
         return None
     else:
@@ -431,7 +433,8 @@ def isoformat(time_string: str):
     """
     # try parsing with dateutil
     try:
-        parsed_time = dateutil.parser.parse(time_string.rstrip())
+        parsed_time = dateutil.parser.parse(time_string.rstrip(),
+            default=datetime.datetime(1970, 1, 1))
     except (TypeError, ValueError):
         return None
     else:
-- 
2.43.0


From 9e180b003b867b697d46dc15d9396d7be3795ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:04 +0000
Subject: [PATCH 87/95] fix: stop when an output name cannot be created

---
 scripts/reduce_OTIS_files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/reduce_OTIS_files.py b/scripts/reduce_OTIS_files.py
index 0ccfa48..f3a8e5d 100644
--- a/scripts/reduce_OTIS_files.py
+++ b/scripts/reduce_OTIS_files.py
@@ -215,7 +215,7 @@ def create_unique_filename(filename):
         try:
             # open file descriptor only if the file doesn't exist
             fd = filename.open(mode='xb')
-        except OSError:
+        except FileExistsError:
             pass
         else:
             # close the file descriptor and return the filename
-- 
2.43.0


From f6122198e64feb8c436b70b08e2b9bfb1bf8d8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:36 +0000
Subject: [PATCH 88/95] fix: reduce the elevation and transport files of OTIS
 models

The dictionaries of model files were never filled, so that a reduction
stopped with a KeyError after the grid was written. Models can have a
single file or a file for each constituent.
---
 scripts/reduce_OTIS_files.py | 100 +++++++++++++++++++----------------
 1 file changed, 53 insertions(+), 47 deletions(-)

diff --git a/scripts/reduce_OTIS_files.py b/scripts/reduce_OTIS_files.py
index f3a8e5d..64fab63 100644
--- a/scripts/reduce_OTIS_files.py
+++ b/scripts/reduce_OTIS_files.py
@@ -89,9 +89,6 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
         model = pyTMD.io.model(directory=tide_dir).elevation(TIDE_MODEL)
     except Exception as exc:
         model = pyTMD.io.model(directory=tide_dir).current(TIDE_MODEL)
-    # directionaries with input and output files
-    model_file = {}
-    new_model_file = {}
 
     # read the OTIS-format tide grid file
     if (model.format == 'ATLAS-compact'):
@@ -147,26 +144,30 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
     except Exception as exc:
         pass
     else:
-        # read each constituent
-        constituents,nc = pyTMD.io.OTIS.read_constituents(model_file['z'])
-        z1 = np.zeros((ny,nx,nc),dtype=np.complex64)
-        for i,c in enumerate(constituents):
-            # read constituent from elevation file
-            if (model.format == 'ATLAS-compact'):
-                z0,zlocal = pyTMD.io.OTIS.read_atlas_elevation(
-                    model_file['z'], i, c)
-                xi,yi,z=pyTMD.io.OTIS.combine_atlas_model(x0, y0, z0, pmask,
-                    zlocal, variable='z')
-            else:
-                z = pyTMD.io.OTIS.read_otis_elevation(model_file['z'], i)
-            # reduce elevation to new bounds
-            z1[:,:,i] = z[indy,indx].reshape(ny,nx)
-        # output reduced elevation components
-        new_model_file['z'] = create_unique_filename(model_file['z'])
-        pyTMD.io.OTIS.output_otis_elevation(new_model_file['z'], z1,
-            xlim, ylim, constituents)
-        # change the permissions level to MODE
-        new_model_file['z'].chmod(mode=MODE)
+        # models can be a single file or a file for each constituent
+        model_files = model.model_file if isinstance(model.model_file, list) \
+            else [model.model_file]
+        for model_file in model_files:
+            # read each constituent
+            constituents,nc = pyTMD.io.OTIS.read_constituents(model_file)
+            z1 = np.zeros((ny,nx,nc),dtype=np.complex64)
+            for i,c in enumerate(constituents):
+                # read constituent from elevation file
+                if (model.format == 'ATLAS-compact'):
+                    z0,zlocal = pyTMD.io.OTIS.read_atlas_elevation(
+                        model_file, i, c)
+                    xi,yi,z=pyTMD.io.OTIS.combine_atlas_model(x0, y0, z0, pmask,
+                        zlocal, variable='z')
+                else:
+                    z = pyTMD.io.OTIS.read_otis_elevation(model_file, i)
+                # reduce elevation to new bounds
+                z1[:,:,i] = z[indy,indx].reshape(ny,nx)
+            # output reduced elevation components
+            new_model_file = create_unique_filename(model_file)
+            pyTMD.io.OTIS.output_otis_elevation(new_model_file, z1,
+                xlim, ylim, constituents)
+            # change the permissions level to MODE
+            new_model_file.chmod(mode=MODE)
 
     # combine ATLAS sub-grids into single output grid
     # reduce transport files to bounds
@@ -176,30 +177,35 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
     except Exception as exc:
         pass
     else:
-        # read each constituent
-        constituents,nc = pyTMD.io.OTIS.read_constituents(model_file['u'])
-        u1 = np.zeros((ny,nx,nc),dtype=np.complex64)
-        v1 = np.zeros((ny,nx,nc),dtype=np.complex64)
-        for i,c in enumerate(constituents):
-            # read constituent from transport file
-            if (model.format == 'ATLAS-compact'):
-                u0,v0,uvlocal = pyTMD.io.OTIS.read_atlas_transport(
-                    model_file['u'], i, c)
-                xi,yi,u = pyTMD.io.OTIS.combine_atlas_model(x0, y0, u0, pmask,
-                    uvlocal, variable='u')
-                xi,yi,v = pyTMD.io.OTIS.combine_atlas_model(x0, y0, v0, pmask,
-                    uvlocal, variable='v')
-            else:
-                u,v = pyTMD.io.OTIS.read_otis_transport(model_file['u'],i)
-            # reduce transport components to new bounds
-            u1[:,:,i] = u[indy,indx].reshape(ny,nx)
-            v1[:,:,i] = v[indy,indx].reshape(ny,nx)
-        # output reduced transport components
-        new_model_file['uv'] = create_unique_filename(model_file['u'])
-        pyTMD.io.OTIS.output_otis_transport(new_model_file['u'], u1, v1,
-            xlim, ylim, constituents)
-        # change the permissions level to MODE
-        new_model_file['u'].chmod(mode=MODE)
+        # models can be a single file or a file for each constituent
+        model_files = model.model_file['u']
+        model_files = model_files if isinstance(model_files, list) \
+            else [model_files]
+        for model_file in model_files:
+            # read each constituent
+            constituents,nc = pyTMD.io.OTIS.read_constituents(model_file)
+            u1 = np.zeros((ny,nx,nc),dtype=np.complex64)
+            v1 = np.zeros((ny,nx,nc),dtype=np.complex64)
+            for i,c in enumerate(constituents):
+                # read constituent from transport file
+                if (model.format == 'ATLAS-compact'):
+                    u0,v0,uvlocal = pyTMD.io.OTIS.read_atlas_transport(
+                        model_file, i, c)
+                    xi,yi,u = pyTMD.io.OTIS.combine_atlas_model(x0, y0, u0, pmask,
+                        uvlocal, variable='u')
+                    xi,yi,v = pyTMD.io.OTIS.combine_atlas_model(x0, y0, v0, pmask,
+                        uvlocal, variable='v')
+                else:
+                    u,v = pyTMD.io.OTIS.read_otis_transport(model_file,i)
+                # reduce transport components to new bounds
+                u1[:,:,i] = u[indy,indx].reshape(ny,nx)
+                v1[:,:,i] = v[indy,indx].reshape(ny,nx)
+            # output reduced transport components
+            new_model_file = create_unique_filename(model_file)
+            pyTMD.io.OTIS.output_otis_transport(new_model_file, u1, v1,
+                xlim, ylim, constituents)
+            # change the permissions level to MODE
+            new_model_file.chmod(mode=MODE)
 
 # PURPOSE: create a unique filename adding a numerical instance if existing
 def create_unique_filename(filename):
-- 
2.43.0


From 651abfb22143d200b54f5493322ff1431e65137f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:20 +0000
Subject: [PATCH 89/95] fix: do not take disk errors for missing parts of a
 model

reduce_OTIS_files.py left the elevation or the transport files out and
reported success when looking for them failed for any reason.
---
 scripts/reduce_OTIS_files.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/reduce_OTIS_files.py b/scripts/reduce_OTIS_files.py
index 64fab63..19f23c5 100644
--- a/scripts/reduce_OTIS_files.py
+++ b/scripts/reduce_OTIS_files.py
@@ -87,7 +87,7 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
     # get parameters for tide model grid
     try:
         model = pyTMD.io.model(directory=tide_dir).elevation(TIDE_MODEL)
-    except Exception as exc:
+    except (FileNotFoundError, ValueError) as exc:
         model = pyTMD.io.model(directory=tide_dir).current(TIDE_MODEL)
 
     # read the OTIS-format tide grid file
@@ -141,7 +141,7 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
     try:
         # get parameters for tide model
         model = model.elevation(TIDE_MODEL)
-    except Exception as exc:
+    except (FileNotFoundError, ValueError) as exc:
         pass
     else:
         # models can be a single file or a file for each constituent
@@ -174,7 +174,7 @@ def make_regional_OTIS_files(tide_dir, TIDE_MODEL,
     try:
         # get parameters for tide model
         model = model.current(TIDE_MODEL)
-    except Exception as exc:
+    except (FileNotFoundError, ValueError) as exc:
         pass
     else:
         # models can be a single file or a file for each constituent
-- 
2.43.0


From feb4d126332aa5c84618dde580dc304b7fcddf3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:26 +0000
Subject: [PATCH 90/95] fix: read csv files with geographic coordinates

the batch programs failed for csv files with the default column
names (time, lat, lon, data): coordinates were only found if the
columns were named x and y.
---
 scripts/compute_LPET_elevations.py   | 4 ++++
 scripts/compute_LPT_displacements.py | 4 ++++
 scripts/compute_OPT_displacements.py | 4 ++++
 scripts/compute_SET_displacements.py | 4 ++++
 scripts/compute_tidal_currents.py    | 4 ++++
 scripts/compute_tidal_elevations.py  | 4 ++++
 6 files changed, 24 insertions(+)

diff --git a/scripts/compute_LPET_elevations.py b/scripts/compute_LPET_elevations.py
index ecf28eb..4a7f66c 100644
--- a/scripts/compute_LPET_elevations.py
+++ b/scripts/compute_LPET_elevations.py
@@ -162,6 +162,10 @@ def compute_LPET_elevations(input_file, output_file,
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
         dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
+        # use default names for geographic coordinates
+        for key, name in (('x', 'lon'), ('y', 'lat')):
+            if key not in dinput and name in dinput:
+                dinput[key] = dinput.pop(name)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
diff --git a/scripts/compute_LPT_displacements.py b/scripts/compute_LPT_displacements.py
index 3ffc1ff..07ab2f9 100644
--- a/scripts/compute_LPT_displacements.py
+++ b/scripts/compute_LPT_displacements.py
@@ -186,6 +186,10 @@ def compute_LPT_displacements(input_file, output_file,
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
         dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
+        # use default names for geographic coordinates
+        for key, name in (('x', 'lon'), ('y', 'lat')):
+            if key not in dinput and name in dinput:
+                dinput[key] = dinput.pop(name)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
diff --git a/scripts/compute_OPT_displacements.py b/scripts/compute_OPT_displacements.py
index bcf6b89..be7d589 100644
--- a/scripts/compute_OPT_displacements.py
+++ b/scripts/compute_OPT_displacements.py
@@ -206,6 +206,10 @@ def compute_OPT_displacements(input_file, output_file,
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
         dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
+        # use default names for geographic coordinates
+        for key, name in (('x', 'lon'), ('y', 'lat')):
+            if key not in dinput and name in dinput:
+                dinput[key] = dinput.pop(name)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 32638c1..5bb6e39 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -184,6 +184,10 @@ def compute_SET_displacements(input_file, output_file,
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
         dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
+        # use default names for geographic coordinates
+        for key, name in (('x', 'lon'), ('y', 'lat')):
+            if key not in dinput and name in dinput:
+                dinput[key] = dinput.pop(name)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
diff --git a/scripts/compute_tidal_currents.py b/scripts/compute_tidal_currents.py
index 8b00373..1a46d40 100755
--- a/scripts/compute_tidal_currents.py
+++ b/scripts/compute_tidal_currents.py
@@ -253,6 +253,10 @@ def compute_tidal_currents(tide_dir, input_file, output_file,
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
         dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
+        # use default names for geographic coordinates
+        for key, name in (('x', 'lon'), ('y', 'lat')):
+            if key not in dinput and name in dinput:
+                dinput[key] = dinput.pop(name)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
diff --git a/scripts/compute_tidal_elevations.py b/scripts/compute_tidal_elevations.py
index 7c7bd6d..62811b2 100755
--- a/scripts/compute_tidal_elevations.py
+++ b/scripts/compute_tidal_elevations.py
@@ -261,6 +261,10 @@ def compute_tidal_elevations(tide_dir, input_file, output_file,
         parse_dates = (TIME_STANDARD.lower() == 'datetime')
         dinput = pyTMD.spatial.from_ascii(input_file, columns=VARIABLES,
             delimiter=DELIMITER, header=HEADER, parse_dates=parse_dates)
+        # use default names for geographic coordinates
+        for key, name in (('x', 'lon'), ('y', 'lat')):
+            if key not in dinput and name in dinput:
+                dinput[key] = dinput.pop(name)
         attributes = dinput['attributes']
     elif (FORMAT == 'netCDF4'):
         field_mapping = pyTMD.spatial.default_field_mapping(VARIABLES)
-- 
2.43.0


From 3164af45986e8220ec50aef7a0414d1e1fecbf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:01 +0000
Subject: [PATCH 91/95] fix: compute solid earth tides for gridded files

---
 scripts/compute_SET_displacements.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 5bb6e39..3188cba 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -249,7 +249,7 @@ def compute_SET_displacements(input_file, output_file,
     units = pyTMD.datum(ellipsoid=ELLIPSOID, units='MKS')
 
     # convert input coordinates to cartesian
-    X, Y, Z = pyTMD.spatial.to_cartesian(lon, lat,
+    X, Y, Z = pyTMD.spatial.to_cartesian(np.ravel(lon), np.ravel(lat),
         a_axis=units.a_axis, flat=units.flat)
     # compute ephemerides for lunisolar coordinates
     SX, SY, SZ = pyTMD.astro.solar_ecef(ts.MJD, ephemerides=EPHEMERIDES)
-- 
2.43.0


From 0017c5eece10463503cc7f7cefc384232329c4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:01 +0000
Subject: [PATCH 92/95] fix: write the dates of the input records to csv files

dates converted from modified julian days are rounded down: the
dates of output records could be one second early.
---
 scripts/compute_LPET_elevations.py   | 2 +-
 scripts/compute_LPT_displacements.py | 2 +-
 scripts/compute_OPT_displacements.py | 2 +-
 scripts/compute_SET_displacements.py | 2 +-
 scripts/compute_tidal_currents.py    | 2 +-
 scripts/compute_tidal_elevations.py  | 2 +-
 6 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/scripts/compute_LPET_elevations.py b/scripts/compute_LPET_elevations.py
index 4a7f66c..71c01fe 100644
--- a/scripts/compute_LPET_elevations.py
+++ b/scripts/compute_LPET_elevations.py
@@ -266,7 +266,7 @@ def compute_LPET_elevations(input_file, output_file,
     # output data dictionary
     output = {'lon':lon, 'lat':lat, 'tide_lpe':tide_lpe}
     if (FORMAT == 'csv') and (TIME_STANDARD.lower() == 'datetime'):
-        output['time'] = ts.to_string()
+        output['time'] = np.datetime_as_string(dinput['time'], unit='s')
     else:
         attrib['time']['units'] = 'days since 1992-01-01T00:00:00'
         output['time'] = ts.tide
diff --git a/scripts/compute_LPT_displacements.py b/scripts/compute_LPT_displacements.py
index 07ab2f9..b02f36d 100644
--- a/scripts/compute_LPT_displacements.py
+++ b/scripts/compute_LPT_displacements.py
@@ -376,7 +376,7 @@ def compute_LPT_displacements(input_file, output_file,
     # output data dictionary
     output = {'lon':lon, 'lat':lat, 'tide_pole':Srad}
     if (FORMAT == 'csv') and (TIME_STANDARD.lower() == 'datetime'):
-        output['time'] = ts.to_string()
+        output['time'] = np.datetime_as_string(dinput['time'], unit='s')
     else:
         attrib['time']['units'] = 'days since 1992-01-01T00:00:00'
         output['time'] = ts.tide
diff --git a/scripts/compute_OPT_displacements.py b/scripts/compute_OPT_displacements.py
index be7d589..cf17330 100644
--- a/scripts/compute_OPT_displacements.py
+++ b/scripts/compute_OPT_displacements.py
@@ -402,7 +402,7 @@ def compute_OPT_displacements(input_file, output_file,
     # output data dictionary
     output = {'lon':lon, 'lat':lat, 'tide_oc_pole':Urad}
     if (FORMAT == 'csv') and (TIME_STANDARD.lower() == 'datetime'):
-        output['time'] = ts.to_string()
+        output['time'] = np.datetime_as_string(dinput['time'], unit='s')
     else:
         attrib['time']['units'] = 'days since 1992-01-01T00:00:00'
         output['time'] = ts.tide
diff --git a/scripts/compute_SET_displacements.py b/scripts/compute_SET_displacements.py
index 3188cba..c6289e7 100644
--- a/scripts/compute_SET_displacements.py
+++ b/scripts/compute_SET_displacements.py
@@ -349,7 +349,7 @@ def compute_SET_displacements(input_file, output_file,
     # output data dictionary
     output = {'lon':lon, 'lat':lat, 'tide_earth':tide_se}
     if (FORMAT == 'csv') and (TIME_STANDARD.lower() == 'datetime'):
-        output['time'] = ts.to_string()
+        output['time'] = np.datetime_as_string(dinput['time'], unit='s')
     else:
         attrib['time']['units'] = 'days since 1992-01-01T00:00:00'
         output['time'] = ts.tide
diff --git a/scripts/compute_tidal_currents.py b/scripts/compute_tidal_currents.py
index 1a46d40..94d903c 100755
--- a/scripts/compute_tidal_currents.py
+++ b/scripts/compute_tidal_currents.py
@@ -422,7 +422,7 @@ def compute_tidal_currents(tide_dir, input_file, output_file,
     # output data dictionary
     output = {'lon':lon, 'lat':lat, **tide}
     if (FORMAT == 'csv') and (TIME_STANDARD.lower() == 'datetime'):
-        output['time'] = ts.to_string()
+        output['time'] = np.datetime_as_string(dinput['time'], unit='s')
     else:
         attrib['time']['units'] = 'days since 1992-01-01T00:00:00'
         output['time'] = ts.tide
diff --git a/scripts/compute_tidal_elevations.py b/scripts/compute_tidal_elevations.py
index 62811b2..32eb894 100755
--- a/scripts/compute_tidal_elevations.py
+++ b/scripts/compute_tidal_elevations.py
@@ -420,7 +420,7 @@ def compute_tidal_elevations(tide_dir, input_file, output_file,
     # output data dictionary
     output = {'lon':lon, 'lat':lat, output_variable:tide}
     if (FORMAT == 'csv') and (TIME_STANDARD.lower() == 'datetime'):
-        output['time'] = ts.to_string()
+        output['time'] = np.datetime_as_string(dinput['time'], unit='s')
     else:
         attrib['time']['units'] = 'days since 1992-01-01T00:00:00'
         output['time'] = ts.tide
-- 
2.43.0


From c9543b7cac567b743f243b02daa564271ee4c745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:17 +0000
Subject: [PATCH 93/95] fix: do not ignore the geometry of parquet files after
 an error

Any error while decoding the metadata of a parquet file (such as running
out of memory) was ignored, and the file was then read without its
geometry and coordinate reference system.  Only metadata that is not JSON
is ignored.
---
 pyTMD/spatial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyTMD/spatial.py b/pyTMD/spatial.py
index 2571b2a..bd3575e 100644
--- a/pyTMD/spatial.py
+++ b/pyTMD/spatial.py
@@ -773,7 +773,7 @@ def from_parquet(filename: str, **kwargs):
         try:
             att_val = json.loads(val.decode('utf-8'))
             attr[att_name.decode('utf-8')] = att_val
-        except Exception as exc:
+        except ValueError as exc:
             pass
     # check if parquet file contains geometry metadata
     attr['geoparquet'] = False
-- 
2.43.0


From 8f7f641bf8da35d51d2baed05f2fdac4f9577908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:42 +0000
Subject: [PATCH 94/95] fix: look for the ephemeris kernel in the home
 directory it is downloaded to

---
 pyTMD/astro.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyTMD/astro.py b/pyTMD/astro.py
index 41369f8..4e9eff1 100644
--- a/pyTMD/astro.py
+++ b/pyTMD/astro.py
@@ -464,6 +464,8 @@ def solar_ephemerides(MJD: np.ndarray, **kwargs):
     kwargs.setdefault('kernel', _default_kernel)
     # create timescale from Modified Julian Day (MJD)
     ts = timescale.time.Timescale(MJD=MJD)
+    # expand paths relative to the home directory
+    kwargs['kernel'] = pathlib.Path(kwargs['kernel']).expanduser()
     # download kernel file if not currently existing
     if not pathlib.Path(kwargs['kernel']).exists():
         from_jpl_ssd(kernel=None, local=kwargs['kernel'])
@@ -616,6 +618,8 @@ def lunar_ephemerides(MJD: np.ndarray, **kwargs):
     """
     # set default keyword arguments
     kwargs.setdefault('kernel', _default_kernel)
+    # expand paths relative to the home directory
+    kwargs['kernel'] = pathlib.Path(kwargs['kernel']).expanduser()
     # download kernel file if not currently existing
     if not pathlib.Path(kwargs['kernel']).exists():
         from_jpl_ssd(kernel=None, local=kwargs['kernel'])
-- 
2.43.0


From 11d11d139893c63f0c6b329e9773198b434460e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:02:57 +0000
Subject: [PATCH 95/95] fix: write results for definition files with only the
 documented parameters

---
 scripts/compute_tidal_currents.py   | 3 +++
 scripts/compute_tidal_elevations.py | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/scripts/compute_tidal_currents.py b/scripts/compute_tidal_currents.py
index 94d903c..16ab505 100755
--- a/scripts/compute_tidal_currents.py
+++ b/scripts/compute_tidal_currents.py
@@ -414,6 +414,9 @@ def compute_tidal_currents(tide_dir, input_file, output_file,
     attrib['v']['units'] = 'cm/s'
     attrib['v']['long_name'] = model.long_name['v']
     attrib['v']['_FillValue'] = FILL_VALUE
+    # remove attributes that are not within the model definition
+    for key in model.type:
+        attrib[key] = {k: v for k, v in attrib[key].items() if v is not None}
     # time
     attrib['time'] = {}
     attrib['time']['long_name'] = 'Time'
diff --git a/scripts/compute_tidal_elevations.py b/scripts/compute_tidal_elevations.py
index 32eb894..a3add3b 100755
--- a/scripts/compute_tidal_elevations.py
+++ b/scripts/compute_tidal_elevations.py
@@ -404,7 +404,7 @@ def compute_tidal_elevations(tide_dir, input_file, output_file,
     attrib['lon']['long_name'] = 'Longitude'
     attrib['lon']['units'] = 'Degrees_East'
     # tides
-    output_variable = model.variable
+    output_variable = model.variable or 'tide_ocean'
     attrib[output_variable] = {}
     attrib[output_variable]['description'] = model.description
     attrib[output_variable]['reference'] = model.reference
@@ -412,6 +412,9 @@ def compute_tidal_elevations(tide_dir, input_file, output_file,
     attrib[output_variable]['units'] = 'meters'
     attrib[output_variable]['long_name'] = model.long_name
     attrib[output_variable]['_FillValue'] = FILL_VALUE
+    # remove attributes that are not within the model definition
+    attrib[output_variable] = {key: val for key, val in
+        attrib[output_variable].items() if val is not None}
     # time
     attrib['time'] = {}
     attrib['time']['long_name'] = 'Time'
-- 
2.43.0

