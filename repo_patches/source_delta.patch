From eeefea308a8b9380728f2609698aed2761082de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 01/67] fix: CSV writer reports failed and short writes

---
 emlearn/eml_csv.h | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 8a16bc8..7801dc7 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -49,6 +49,18 @@ typedef struct _EmlCsvWriter {
 
 
 // Writer
+
+// Write all the bytes, or return an error
+static EmlError
+eml_csv_writer_write_bytes(EmlCsvWriter *self, const char *bytes, int length)
+{
+    const int written = self->write(self->stream, (const uint8_t *)bytes, length);
+    if (written != length) {
+        return EmlUnknownError;
+    }
+    return EmlOk;
+}
+
 EmlError
 eml_csv_writer_write_header(EmlCsvWriter *self, const char **columns, size_t n_columns)
 {
@@ -63,14 +75,14 @@ eml_csv_writer_write_header(EmlCsvWriter *self, const char **columns, size_t n_c
     for (int i=0; i<data_length; i++) {
         const char *name = columns[i];
         const int length = strlen(name);
-        self->write(self->stream, (uint8_t *)name, length);
+        EML_CHECK_ERROR(eml_csv_writer_write_bytes(self, name, length));
         const bool is_last = (i == data_length-1);
         if (!is_last) {
-            self->write(self->stream, (uint8_t *)delimiter, 1);
+            EML_CHECK_ERROR(eml_csv_writer_write_bytes(self, delimiter, 1));
         }
     }
 
-    self->write(self->stream, (uint8_t *)endline, 1);
+    EML_CHECK_ERROR(eml_csv_writer_write_bytes(self, endline, 1));
 
     return EmlOk;
 }
@@ -94,9 +106,9 @@ eml_csv_writer_write_data(EmlCsvWriter *self, const float *data, size_t data_len
             buf[written] = (EML_CSV_DELIMITER)[0];
             written += 1;
         }
-        self->write(self->stream, (uint8_t *)buf, written);
+        EML_CHECK_ERROR(eml_csv_writer_write_bytes(self, buf, written));
     }
-    self->write(self->stream, (uint8_t *)endline, 1);
+    EML_CHECK_ERROR(eml_csv_writer_write_bytes(self, endline, 1));
 
     return EmlOk;
 }
-- 
2.43.0


From c3b62043e424b582b8438ae9def755336591ee16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 02/67] fix: CSV writer does not leave a partial row when a
 value is rejected

---
 emlearn/eml_csv.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 7801dc7..3a30b59 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -96,11 +96,17 @@ eml_csv_writer_write_data(EmlCsvWriter *self, const float *data, size_t data_len
 
     char buf[EML_CSV_FLOAT_MAXSIZE] = {0,};
     const int max = EML_CSV_FLOAT_MAXSIZE;
+
+    // Check all values before writing any, to not leave a partial row in the stream
     for (int i=0; i<data_length; i++) {
-        int written = snprintf(buf, max, EML_CSV_FLOAT_FORMAT, data[i]);
-        if (written >= max) {
+        const int needed = snprintf(buf, max, EML_CSV_FLOAT_FORMAT, data[i]);
+        if (needed < 0 || needed >= max) {
             return EmlUnsupported;
         }
+    }
+
+    for (int i=0; i<data_length; i++) {
+        int written = snprintf(buf, max, EML_CSV_FLOAT_FORMAT, data[i]);
         const bool is_last = (i == data_length-1);
         if (!is_last) {
             buf[written] = (EML_CSV_DELIMITER)[0];
-- 
2.43.0


From 0dd0d87b3bda41898d5e1520641e964b9cfe1f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 03/67] fix: CSV reader handles read errors

---
 emlearn/eml_csv.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 3a30b59..0f5fcba 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -131,8 +131,11 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
 
     // Copy the (potential header) into our buffer
     // We will return pointers into this buffer
-    const size_t read_length = \
+    const int read_length = \
         self->read(self->stream, (uint8_t *)buffer, buffer_length);
+    if (read_length < 0) {
+        return EmlUnknownError;
+    }
 
     // Find start of data / end-of-header
     // int data_start = -1; // XXX: why unused?
-- 
2.43.0


From 1acafb376b5bd2988003a1218aaa267f262ac4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 04/67] fix: fileio read reports I/O errors instead of
 end-of-file

---
 emlearn/eml_fileio.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_fileio.h b/emlearn/eml_fileio.h
index 3e3410e..86cb8eb 100644
--- a/emlearn/eml_fileio.h
+++ b/emlearn/eml_fileio.h
@@ -30,7 +30,13 @@ int eml_fileio_write(void *context, const uint8_t *buffer, size_t size)
 int eml_fileio_read(void *context, uint8_t *buffer, size_t size)
 {
     FILE* fptr = context;
-    return fread(buffer, 1, size, fptr);
+    clearerr(fptr);
+    const size_t read = fread(buffer, 1, size, fptr);
+    if (read == 0 && ferror(fptr)) {
+        // do not report an I/O error as end-of-file
+        return -1;
+    }
+    return read;
 }
 
 /**
-- 
2.43.0


From c1cf92508a824215aaf39e83fa07899aaae5a6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 05/67] fix: CSV reader continues at the right row after a
 failed read or seek

---
 emlearn/eml_csv.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 0f5fcba..b75cf1d 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -216,6 +216,12 @@ eml_csv_reader_read_data(EmlCsvReader *self,
     int columns_read = 0;
     int characters_read = 0;
 
+    // Seek to start of the line. An earlier failed read may have left the stream elsewhere
+    const int seek_status = self->seek(self->stream, self->stream_location);
+    if (seek_status != 0) {
+        return -EmlUnknownError;
+    }
+
     EmlError read_err = eml_csv_reader_read_internal(self, \
         buffer, buffer_length, columns, columns_length, &columns_read, &characters_read);
     if (read_err) {
@@ -234,12 +240,8 @@ eml_csv_reader_read_data(EmlCsvReader *self,
         return -EmlUnknownError;
     }
 
-    // Seek to start of next line
+    // Next line starts after the end of this one
     self->stream_location += characters_read+1;
-    const int seek_status = self->seek(self->stream, self->stream_location);
-    if (seek_status != 0) {
-        return -EmlUnknownError;
-    }
 
     return columns_read;
 }
-- 
2.43.0


From f76fd46ead070e5cb0c4dd907afce13001458b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 06/67] fix: CSV reader does not accept an incomplete header

---
 emlearn/eml_csv.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index b75cf1d..9a28459 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -173,6 +173,11 @@ eml_csv_reader_read_internal(EmlCsvReader *self,
         }
     }
 
+    if (read_length > 0 && offset == read_length) {
+        // Line is not complete, either in the stream or in the buffer
+        return EmlUnknownError;
+    }
+
     *out_columns = column_idx;
     *out_offset = offset;
 
@@ -191,6 +196,10 @@ eml_csv_reader_read_header(EmlCsvReader *self,
     EmlError read_err = eml_csv_reader_read_internal(self, \
         buffer, buffer_length, columns, columns_length, &columns_read, &characters_read);
     EML_CHECK_ERROR(read_err);
+    if (columns_read == 0) {
+        // No header in stream
+        return EmlUnknownError;
+    }
 
     // Rembember number of columns
     self->n_columns = columns_read;
-- 
2.43.0


From 618ae79512a98213fdcfedd5fec17dad38aa069a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 07/67] fix: CSV header can be read again after a failed read

---
 emlearn/eml_csv.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 9a28459..938f5b4 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -193,6 +193,12 @@ eml_csv_reader_read_header(EmlCsvReader *self,
     int columns_read = 0;
     int characters_read = 0;
 
+    // Header is at the start. An earlier failed read may have left the stream elsewhere
+    const int start_status = self->seek(self->stream, 0);
+    if (start_status != 0) {
+        return EmlUnknownError;
+    }
+
     EmlError read_err = eml_csv_reader_read_internal(self, \
         buffer, buffer_length, columns, columns_length, &columns_read, &characters_read);
     EML_CHECK_ERROR(read_err);
-- 
2.43.0


From 38176c61374a64c60adfab841c11e7bfff800ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:41 +0000
Subject: [PATCH 08/67] fix: CSV reader returns a negative value when given too
 few columns

---
 emlearn/eml_csv.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 938f5b4..0a03d40 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -226,7 +226,7 @@ eml_csv_reader_read_data(EmlCsvReader *self,
         char *buffer, size_t buffer_length,
         char **columns, size_t columns_length)
 {
-    EML_PRECONDITION(columns_length >= self->n_columns, EmlSizeMismatch);
+    EML_PRECONDITION(columns_length >= self->n_columns, -EmlSizeMismatch);
 
     int columns_read = 0;
     int characters_read = 0;
-- 
2.43.0


From d31523f9f5dba67354025ebd8bc8a6672d62f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 09/67] fix: neighbors inference does not share vote counters
 between tasks

---
 emlearn/eml_neighbors.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index c90a318..980babc 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -184,9 +184,6 @@ eml_neighbors_infer(EmlNeighborsModel *self,
     return EmlOk;
 }
 
-// FIXME: avoid hardcoding length
-int16_t eml_neighbors_votes[EML_NEIGHBORS_MAX_CLASSES];
-
 EmlError
 eml_neighbors_find_nearest(EmlNeighborsModel *self,
         EmlNeighborsDistanceItem *distances, int distances_length,
@@ -205,7 +202,8 @@ eml_neighbors_find_nearest(EmlNeighborsModel *self,
     // argsort by distance. NOTE: sorts in-place
     eml_neighbors_sort_distances(distances, distances_length);
 
-    int16_t *votes = eml_neighbors_votes;
+    // FIXME: avoid hardcoding length
+    int16_t votes[EML_NEIGHBORS_MAX_CLASSES];
     memset(votes, 0, sizeof(int16_t) * EML_NEIGHBORS_MAX_CLASSES);
 
     // merge predictions for top-k matches
-- 
2.43.0


From b88cae2d974b2a342916c90f0318a1fa9afae4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 10/67] fix: neighbors distance does not overflow or hang on
 large differences

---
 emlearn/eml_neighbors.h | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index 980babc..3feae55 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -26,37 +26,34 @@ in order to support on-device learning.
 #endif // EML_NEIGHBORS_MAX_CLASSES
 
 
-int32_t eml_isqrt(int32_t x)
+uint32_t eml_isqrt(uint64_t x)
 {
-    int32_t q = 1, r = 0;
-    while (q <= x) {
-        q <<= 2;
-    }
-    while (q > 1) {
-        int32_t t;
+    uint64_t q = ((uint64_t)1) << 62, r = 0;
+    while (q > x) {
         q >>= 2;
-        t = x - r - q;
-        r >>= 1;
-        if (t >= 0) {
-            x = t;
-            r += q;
+    }
+    while (q > 0) {
+        if (x >= r + q) {
+            x -= r + q;
+            r = (r >> 1) + q;
+        } else {
+            r >>= 1;
         }
+        q >>= 2;
     }
-    return r;
+    return (uint32_t)r;
 }
 
 uint32_t
 eml_distance_euclidean_int16(const int16_t *a, const int16_t *b, int length)
 {
-    // FIXME: test this with large values
-    uint32_t ret = 0;
+    // 64 bits needed, the square of a single difference can take up 32 bits
+    uint64_t sum = 0;
     for (int i=0; i<length; i++) {
-        const int32_t diff = a[i] - b[i];        
-        const int32_t d = diff * diff;
-        ret += d;
+        const int64_t diff = (int64_t)a[i] - b[i];
+        sum += (uint64_t)(diff * diff);
     }
-    ret = eml_isqrt(ret); 
-    return ret;
+    return eml_isqrt(sum);
 }
 
 /** @typedef EmlNeighborsDistanceItem
-- 
2.43.0


From f2b81679957ea0cfbecb428829f0a170d78cee3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 11/67] fix: bayes predict rejects wrong input length and too
 many classes

---
 emlearn/eml_bayes.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/eml_bayes.h b/emlearn/eml_bayes.h
index 056d4f8..a30aab0 100644
--- a/emlearn/eml_bayes.h
+++ b/emlearn/eml_bayes.h
@@ -112,6 +112,8 @@ eml_bayes_predict(EmlBayesModel *model, const float values[], int32_t values_len
    EML_PRECONDITION(model, -EmlUninitialized);
    EML_PRECONDITION(values, -EmlUninitialized);
    EML_PRECONDITION(model->n_classes >= 2, -EmlUninitialized);
+   EML_PRECONDITION(model->n_classes <= EML_MAX_CLASSES, -EmlUnsupported);
+   EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
    eml_q16_t class_probabilities[EML_MAX_CLASSES];
 
-- 
2.43.0


From cf3a94ccd741cbbd8410d8f9de612f0638b05f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 12/67] fix: mixture predict rejects wrong input length

---
 emlearn/eml_mixture.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlearn/eml_mixture.h b/emlearn/eml_mixture.h
index c19343d..5604777 100644
--- a/emlearn/eml_mixture.h
+++ b/emlearn/eml_mixture.h
@@ -168,6 +168,7 @@ eml_mixture_predict_log_proba(EmlMixtureModel *model,
     EML_PRECONDITION(model, -EmlUninitialized);
     EML_PRECONDITION(values, -EmlUninitialized);
     EML_PRECONDITION(model->n_components > 0, -EmlUninitialized);
+    EML_PRECONDITION(values_length == model->n_features, -EmlSizeMismatch);
 
     float *out = probabilities;
     const int n_features = model->n_features;
-- 
2.43.0


From 0ad2320e0e70b8ae84916ebb445f3fde4162ea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 13/67] fix: trees predict_proba and regress reject wrong input
 length

---
 emlearn/eml_trees.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 531cd02..35025a3 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -121,6 +121,7 @@ eml_trees_predict_proba(const EmlTrees *self,
 {
     EML_PRECONDITION(features, EmlUninitialized);
     EML_PRECONDITION(out, EmlUninitialized);
+    EML_PRECONDITION(features_length == self->n_features, EmlSizeMismatch);
     const int32_t n_outputs = eml_trees_outputs_proba(self);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
 
@@ -263,6 +264,10 @@ eml_trees_regress(const EmlTrees *forest,
         return EmlSizeMismatch;
     }
 
+    if (features_length != forest->n_features) {
+        return EmlSizeMismatch;
+    }
+
     if (forest->leaf_bits != 32) {
         // only majority vote supported for now
         return EmlUnsupported;
-- 
2.43.0


From 2ac443f5fa8b127aeb3fbcbfb63d26b01f2db08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 14/67] fix: elliptic envelope does not return an error as
 outlier or zero distance

---
 emlearn/distance.py    | 3 ++-
 emlearn/eml_distance.h | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/emlearn/distance.py b/emlearn/distance.py
index 1b6fa8c..1563062 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -69,6 +69,7 @@ def generate_code(means, precision, offset, name='my_elliptic', modifiers='stati
 
     main = f'''
     #include <stdio.h>
+    #include <math.h>
 
     // Data definitions
     {modifiers} EmlEllipticEnvelope {classifier_name} = {{
@@ -80,7 +81,7 @@ def generate_code(means, precision, offset, name='my_elliptic', modifiers='stati
 
     // Prediction function
     float {predict_function_name}(const float *features, int n_features) {{
-        float dist = 0.0;
+        float dist = NAN; // in case of error
         const int class = eml_elliptic_envelope_predict(&{classifier_name},
                                 features, n_features, &dist);
         return dist; 
diff --git a/emlearn/eml_distance.h b/emlearn/eml_distance.h
index 61b9fab..406b23c 100644
--- a/emlearn/eml_distance.h
+++ b/emlearn/eml_distance.h
@@ -57,14 +57,14 @@ typedef struct _EmlEllipticEnvelope {
 * \param features The input data values
 * \param features Length of input data array
 * \param out_dist Return location for the continious outlier score (Mahalanobis distance)
-* \return 1 for outlier, 0 for inlier
+* \return 1 for outlier, 0 for inlier, or -EmlError on failure
 */
 int
 eml_elliptic_envelope_predict(const EmlEllipticEnvelope *self,
                             const float *features, int n_features,
                             float *out_dist)
 {
-    EML_PRECONDITION(n_features == self->n_features, EmlSizeMismatch);
+    EML_PRECONDITION(n_features == self->n_features, -EmlSizeMismatch);
 
     const float dist = \
         eml_mahalanobis_distance_squared(features, self->means, self->precision, n_features);
-- 
2.43.0


From 1be88e86fd9069f87db356f8db34e4edfe3b9d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 15/67] fix: neighbors and CSV headers can be included more
 than once

---
 emlearn/eml_csv.h       | 4 ++++
 emlearn/eml_neighbors.h | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/emlearn/eml_csv.h b/emlearn/eml_csv.h
index 0a03d40..d1bc84d 100644
--- a/emlearn/eml_csv.h
+++ b/emlearn/eml_csv.h
@@ -4,6 +4,9 @@
 // Not intended to parse every wierd "csv" like thing out there
 // Just the well-formed thing, that can be produced from typical PyData etc tools
 
+#ifndef EML_CSV_H
+#define EML_CSV_H
+
 #include <eml_common.h>
 #include <eml_io.h>
 
@@ -261,3 +264,4 @@ eml_csv_reader_read_data(EmlCsvReader *self,
     return columns_read;
 }
 
+#endif // EML_CSV_H
diff --git a/emlearn/eml_neighbors.h b/emlearn/eml_neighbors.h
index 3feae55..d901255 100644
--- a/emlearn/eml_neighbors.h
+++ b/emlearn/eml_neighbors.h
@@ -9,6 +9,9 @@ Supports dynamic growth of the model data,
 in order to support on-device learning.
 */
 
+#ifndef EML_NEIGHBORS_H
+#define EML_NEIGHBORS_H
+
 #include <eml_common.h>
 #include <eml_log.h>
 #include <eml_qsort.h>
@@ -280,3 +283,4 @@ eml_neighbors_predict(EmlNeighborsModel *self,
     return EmlOk;
 }
 
+#endif // EML_NEIGHBORS_H
-- 
2.43.0


From 45073dda69ebb551c0f6e09df82b4304e056413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 16/67] fix: array copy_rows rejects arrays with different
 element size

---
 emlearn/eml_array.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 8782bfb..0deeddd 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -202,6 +202,8 @@ eml_array_copy_rows(EmlArray *self, int start, const EmlArray *other)
     EML_PRECONDITION(start >= 0, EmlUnsupported);
     // must have same number of columns
     EML_PRECONDITION(other->dims[0] == self->dims[0], EmlSizeMismatch);
+    // must have same type of elements
+    EML_PRECONDITION(other->value_size == self->value_size, EmlSizeMismatch);
     // other must not be too big
 
 //    fprintf(stderr, "start %d - %d- other_rows %d, self_rows %d \n",
-- 
2.43.0


From 63ca1fac917590b6011f42bda11dcd834c63534a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:21 +0000
Subject: [PATCH 17/67] fix: benchmark clock is not affected by steps of the
 wall clock

---
 emlearn/eml_benchmark.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_benchmark.h b/emlearn/eml_benchmark.h
index fb66757..af50dbc 100644
--- a/emlearn/eml_benchmark.h
+++ b/emlearn/eml_benchmark.h
@@ -17,13 +17,19 @@ extern "C" {
 
 
 #ifdef EML_HAVE_SYS_TIME
+#include <time.h>
 #include <sys/time.h>
 int64_t eml_benchmark_micros() {
+#ifdef CLOCK_MONOTONIC
+    // not affected by adjustments of the wall clock
+    struct timespec spec;
+    clock_gettime(CLOCK_MONOTONIC, &spec);
+    const int64_t micros = (int64_t)(spec.tv_sec)*1000LL*1000LL + spec.tv_nsec/1000;
+#else
     struct timeval spec;
     gettimeofday(&spec, NULL);
-    //struct timespec spec; 
-    //clock_gettime(CLOCK_MONOTONIC, &spec);
     const int64_t micros = (int64_t)(spec.tv_sec)*1000LL*1000LL + spec.tv_usec;
+#endif
     return micros;
 }
 #endif
-- 
2.43.0


From 4103a041c69c04ac12b416d5c2a26d25be08634d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 18/67] fix: creating a directory does not fail when another
 process does so first

---
 emlearn/common.py          | 3 +--
 emlearn/utils/fileutils.py | 8 +++++---
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index 58a7983..b5ee435 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -40,8 +40,7 @@ def build_classifier(cmodel, name, temp_dir,
         warn_flags=None,
         warn_error=True,
         ):
-    if not os.path.exists(temp_dir):
-        os.makedirs(temp_dir)
+    os.makedirs(temp_dir, exist_ok=True)
 
     if test_function is None:
         test_function = 'eml_test_read_csv'
diff --git a/emlearn/utils/fileutils.py b/emlearn/utils/fileutils.py
index 0285300..5e25065 100644
--- a/emlearn/utils/fileutils.py
+++ b/emlearn/utils/fileutils.py
@@ -7,8 +7,11 @@ def ensure_dir_single(path):
 
     Does not create parent directories
     """
-    if not os.path.exists(path):
+    try:
         os.mkdir(path)
+    except FileExistsError:
+        if not os.path.isdir(path):
+            raise
 
 
 def ensure_dir(path):
@@ -17,5 +20,4 @@ def ensure_dir(path):
 
     Will create parent directories as needed
     """
-    if not os.path.exists(path):
-        os.makedirs(path)
+    os.makedirs(path, exist_ok=True)
-- 
2.43.0


From b21395c34e227e055e857c8868d0e34561e8d307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 19/67] fix: compiled models do not overwrite the program of
 one another

---
 emlearn/common.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index b5ee435..bdcb096 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -6,8 +6,11 @@ Utilities
 
 import os
 import sys
+import shutil
 import subprocess
 import platform
+import tempfile
+import weakref
 from distutils.ccompiler import new_compiler
 
 import numpy
@@ -156,6 +159,11 @@ def run_classifier(bin_path, data, out_dtype='int', float_precision=8):
 
     return outputs
 
+def _remove_build_dir(path, pid):
+    # only in the process that created it, not in forked children
+    if os.getpid() == pid:
+        shutil.rmtree(path, ignore_errors=True)
+
 class CompiledClassifier():
     def __init__(self, cmodel, name, call=None, include_dir=None, temp_dir='tmp',
             test_function=None,
@@ -165,15 +173,24 @@ class CompiledClassifier():
 
         if include_dir == None:
             include_dir = get_include_dir()
-        self.bin_path = build_classifier(cmodel, name,
+
+        # Use a separate directory per instance,
+        # since the model name is often the same for different models
+        os.makedirs(temp_dir, exist_ok=True)
+        temp_dir = tempfile.mkdtemp(prefix=name+'_', dir=temp_dir)
+        weakref.finalize(self, _remove_build_dir, os.path.abspath(temp_dir), os.getpid())
+
+        bin_path = build_classifier(cmodel, name,
                 include_dir=include_dir, temp_dir=temp_dir, func=call, test_function=test_function)
+        self.bin_path = os.path.abspath(bin_path)
 
         self.proba_bin_path = None
         if proba_call is not None:
-            self.proba_bin_path = build_classifier(cmodel, name+'_proba',
+            proba_bin_path = build_classifier(cmodel, name+'_proba',
                     include_dir=include_dir, temp_dir=temp_dir,
                     func=proba_call, n_classes=n_classes,
                     test_function=test_function)
+            self.proba_bin_path = os.path.abspath(proba_bin_path)
 
         self._out_dtype = out_dtype
         self.n_classes = n_classes
-- 
2.43.0


From d0444a5cb9858579200491b03f309011ed5a2ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 20/67] fix: building does not leave object files outside the
 output directory

---
 emlearn/common.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index bdcb096..a5295f0 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -112,7 +112,7 @@ def build_classifier(cmodel, name, temp_dir,
 
     with open(code_file, 'w') as f:
         f.write(code)
-    objects = cc.compile(sources=[code_file],
+    objects = cc.compile(sources=[os.path.abspath(code_file)], output_dir=temp_dir,
         extra_preargs=cc_args, include_dirs=include_dirs)
 
     cc.link("executable", objects, output_filename=output_filename, 
@@ -260,16 +260,21 @@ def compile_executable(code_file : str,
         cc_args = ["-std=c99"]
 
 
-    objects = cc.compile(
-        sources=[code_file],
-        extra_preargs=cc_args,
-        include_dirs=include_dirs
-    )
+    os.makedirs(out_dir, exist_ok=True)
 
-    cc.link("executable", objects,
-        output_filename=output_filename, 
-        output_dir=out_dir,
-        libraries=libraries,
-    )  
+    # Keep object files out of the current directory and the source directory
+    with tempfile.TemporaryDirectory(dir=out_dir) as objects_dir:
+        objects = cc.compile(
+            sources=[os.path.abspath(code_file)],
+            output_dir=objects_dir,
+            extra_preargs=cc_args,
+            include_dirs=include_dirs
+        )
+
+        cc.link("executable", objects,
+            output_filename=output_filename, 
+            output_dir=out_dir,
+            libraries=libraries,
+        )
 
     return bin_path
-- 
2.43.0


From 91053a394e9b9bb4698b34a1aa85c999c2576e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 21/67] fix: predict_proba raises on errors and incomplete
 output

---
 emlearn/common.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index a5295f0..5bd00ff 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -83,14 +83,19 @@ def build_classifier(cmodel, name, temp_dir,
         float outputs[N_CLASSES] = {{0.0}};
 
         static void classify_proba(const float *values, int length, int row) {{
-            {func}; // TODO: handle error
+            const int err = {func};
+            if (err != 0) {{
+                fprintf(stderr, "error row=%d error=%d\\n", row, err);
+                exit(1);
+            }}
             for (int class_no=0; class_no<N_CLASSES; class_no++) {{
                 const float prob = outputs[class_no];
                 printf("%d,%d,%f\\n", row, class_no, (double)prob);
             }}
         }}
         int main() {{
-            {test_function}(stdin, classify_proba);
+            const EmlError err = {test_function}(stdin, classify_proba);
+            return (err == EmlOk) ? 0 : 1;
         }}
         """.format(**locals())
     else:
@@ -103,7 +108,8 @@ def build_classifier(cmodel, name, temp_dir,
             printf("%d,%f\\n", row, (double){func});
         }}
         int main() {{
-            {test_function}(stdin, classify);
+            const EmlError err = {test_function}(stdin, classify);
+            return (err == EmlOk) ? 0 : 1;
         }}
         """.format(**locals())
 
@@ -138,6 +144,7 @@ def run_classifier(bin_path, data, out_dtype='int', float_precision=8):
     out = subprocess.check_output(args, input=stdin, encoding='utf8', universal_newlines=True)
 
     # Parse output
+    assert out == '' or out.endswith('\n'), 'Incomplete output'
     outputs = []
     lines = out.split('\n')
     for line in lines:
@@ -214,10 +221,12 @@ class CompiledClassifier():
 
         result = run_classifier(self.proba_bin_path, X, out_dtype=convert_out)
         out = numpy.empty(shape=(len(X), self.n_classes))
+        found = numpy.zeros(shape=out.shape, dtype=bool)
         for i, (row, cls, prob) in enumerate(result):
             out[row][cls] = prob
+            found[row][cls] = True
 
-        assert len(out) == len(X), out
+        assert found.all(), 'Missing probabilities'
         return out
 
     def regress(self, X):
-- 
2.43.0


From d4b5b94860384d44e8be02f481947deac0f6a5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:50 +0000
Subject: [PATCH 22/67] fix: predict raises when the C code reports an error

---
 emlearn/common.py | 5 +++++
 emlearn/trees.py  | 3 ---
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index 5bd00ff..cf62f35 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -207,6 +207,11 @@ class CompiledClassifier():
 
         out = run_classifier(self.bin_path, X, out_dtype=self._out_dtype)
         assert len(out) == len(X), out
+        if self._out_dtype == 'int':
+            # classes are never negative, that is used for error codes
+            errors = [ o for o in out if o < 0 ]
+            if errors:
+                raise ValueError(f'Prediction failed with error: {errors[0]}')
         return out
 
     def predict_proba(self, X):
diff --git a/emlearn/trees.py b/emlearn/trees.py
index d022e83..cc549d7 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -765,9 +765,6 @@ class Wrapper:
                     features[i] = ({feature_dtype})values[i];
                 }}
                 const {return_type} out = {name}_predict(features, length);
-                if (out < 0) {{
-                    return -out;
-                }}
                 return out;
             }}""",
             f"""
-- 
2.43.0


From 4c7f046fe4d182039e5adebae56503596f8bf808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 23/67] fix: predict raises on wrong number of features

---
 emlearn/bayes.py     |  2 +-
 emlearn/common.py    | 14 +++++++++++---
 emlearn/distance.py  |  2 +-
 emlearn/neighbors.py |  2 +-
 emlearn/net.py       |  8 ++++----
 emlearn/trees.py     |  1 +
 6 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/emlearn/bayes.py b/emlearn/bayes.py
index 9bc8c2c..a5fe9d6 100644
--- a/emlearn/bayes.py
+++ b/emlearn/bayes.py
@@ -113,7 +113,7 @@ class Wrapper(object):
             name = 'mybayes'
             func = 'eml_bayes_predict(&{}_model, values, length)'.format(name)
             code = self.save(name=name)
-            self.classifier = common.CompiledClassifier(code, name=name, call=func)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, n_features=n_features)
         elif method == 'inline':
             raise NotImplementedError('NaiveBayes does not support inline C code generation')
         else:
diff --git a/emlearn/common.py b/emlearn/common.py
index cf62f35..6bba389 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -176,7 +176,8 @@ class CompiledClassifier():
             test_function=None,
             out_dtype='int',
             proba_call=None,
-            n_classes=None):
+            n_classes=None,
+            n_features=None):
 
         if include_dir == None:
             include_dir = get_include_dir()
@@ -201,9 +202,16 @@ class CompiledClassifier():
 
         self._out_dtype = out_dtype
         self.n_classes = n_classes
+        self.n_features = n_features
 
-    def predict(self, X):
+    def _check_input(self, X):
         X = check_array(X)
+        if self.n_features is not None and X.shape[1] != self.n_features:
+            raise ValueError(f'X has {X.shape[1]} features, but the model expects {self.n_features}')
+        return X
+
+    def predict(self, X):
+        X = self._check_input(X)
 
         out = run_classifier(self.bin_path, X, out_dtype=self._out_dtype)
         assert len(out) == len(X), out
@@ -215,7 +223,7 @@ class CompiledClassifier():
         return out
 
     def predict_proba(self, X):
-        X = check_array(X)
+        X = self._check_input(X)
 
         if self.proba_bin_path is None:
             raise ValueError('predict_proba() not supported')
diff --git a/emlearn/distance.py b/emlearn/distance.py
index 1563062..56c50a3 100644
--- a/emlearn/distance.py
+++ b/emlearn/distance.py
@@ -106,7 +106,7 @@ class Wrapper:
             name = 'my_inline_elliptic'
             func = '{}_predict(values, length)'.format(name)
             code = self.save(name=name)
-            self.classifier_ = common.CompiledClassifier(code, name=name, call=func, out_dtype='float')
+            self.classifier_ = common.CompiledClassifier(code, name=name, call=func, out_dtype='float', n_features=len(self._means))
         else:
             raise ValueError("Unsupported classifier method '{}'".format(classifier))
 
diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index 42368c2..fc66655 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -82,7 +82,7 @@ class Wrapper:
             func = 'predict_func(values, length)'
 
 
-            self.classifier = common.CompiledClassifier(code, name=name, call=func)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, n_features=n_features)
         else:
             raise ValueError(f"Unsupported inference method '{inference}'")
 
diff --git a/emlearn/net.py b/emlearn/net.py
index 8e06731..a27e94a 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -47,6 +47,7 @@ class Wrapper:
         self.inference_type = classifier
         self.use_fixedpoint = use_fixedpoint
 
+        n_features = self.weights[0].shape[0]
         n_outputs = self.weights[-1].shape[1]
         if n_outputs == 1:
             n_outputs = 2
@@ -59,17 +60,16 @@ class Wrapper:
             func = 'eml_net_predict(&{}, values, length)'.format(name)
             code = self.save(name=name)
             proba_func = 'eml_net_predict_proba(&{}, values, length, outputs, {})'.format(name, n_outputs)
-            self.classifier = common.CompiledClassifier(code, name=name, call=func, proba_call=proba_func, n_classes=n_outputs)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, proba_call=proba_func, n_classes=n_outputs, n_features=n_features)
         elif self.inference_type == 'loadable' and return_type == 'regressor':
             func = 'eml_net_regress1(&{}, values, length)'.format(name)
             code = self.save(name=name)
-            self.classifier = common.CompiledClassifier(code, name=name, call=func, out_dtype='float')
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, out_dtype='float', n_features=n_features)
         elif self.inference_type == 'inline' and return_type == 'classifier':
             code = self.save(name=name)
 
             if self.use_fixedpoint:
                 # inject a conversion between float and fixed-point
-                n_features = self.weights[0].shape[0]
                 code += f"""
                 eml_q16_t {name}_fixed_values[{n_features}];
 
@@ -83,7 +83,7 @@ class Wrapper:
                 func = f'{name}_predict_float(values, length)'                
             else:
                 func = f'{name}_predict(values, length)'
-            self.classifier = common.CompiledClassifier(code, name=name, call=func)
+            self.classifier = common.CompiledClassifier(code, name=name, call=func, n_features=n_features)
         elif self.inference_type == 'inline' and return_type == 'regressor':
             raise NotImplementedError("Inline inference not supported for regressors, use loadable instead")
         else:
diff --git a/emlearn/trees.py b/emlearn/trees.py
index cc549d7..5371721 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -820,6 +820,7 @@ class Wrapper:
         self.classifier_ = common.CompiledClassifier(code, name=name,
             call=call_func, proba_call=proba_func,
             out_dtype=self.out_dtype, n_classes=self.n_classes,
+            n_features=self.n_features,
         )
 
 
-- 
2.43.0


From a33cb1c4e627393033ac46554fb292387c5f9e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 24/67] fix: converted model does not change when the original
 is trained more

---
 emlearn/neighbors.py | 5 +++--
 emlearn/net.py       | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/emlearn/neighbors.py b/emlearn/neighbors.py
index fc66655..9e315a0 100644
--- a/emlearn/neighbors.py
+++ b/emlearn/neighbors.py
@@ -40,8 +40,9 @@ class Wrapper:
         if inference is None:
             inference = 'loadable'
 
-        self.fit_data_X = estimator._fit_X
-        self.fit_data_Y = estimator._y
+        # copy, changes to the original data shall not change the converted model
+        self.fit_data_X = estimator._fit_X.copy()
+        self.fit_data_Y = estimator._y.copy()
         self.n_neighbors = estimator.n_neighbors
         self.inference = inference
 
diff --git a/emlearn/net.py b/emlearn/net.py
index a27e94a..3d6d616 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -40,8 +40,9 @@ class Wrapper:
             classifier = 'loadable'
 
         self.activations = activations
-        self.weights = weights
-        self.biases = biases
+        # copy, training more on the original shall not change the converted model
+        self.weights = [ numpy.array(w) for w in weights ]
+        self.biases = [ numpy.array(b) for b in biases ]
         self.classifier = None
         self.return_type = return_type
         self.inference_type = classifier
-- 
2.43.0


From ec01251df0ca0169598a413e05fb574d6e2e4a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 25/67] fix: mixture predictions raise on incomplete output

---
 emlearn/mixture.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index e892e2a..5c7f20f 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -121,7 +121,10 @@ def predict(bin_path, X, verbose=1):
             for line in lines:
                 print('l', line)
 
-        outs = lines[-1].split(',')
+        # complete output ends with a newline
+        assert len(lines) == 2 and lines[-1] == '', f'Unexpected output: {out}'
+
+        outs = lines[0].split(',')
         values = [ float(s) for s in outs ]
         return values
 
@@ -203,6 +206,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
         }}
         
         {output_code}
+        printf("\\n");
 
         return 0;
     }}
-- 
2.43.0


From e60df153998fb614bd509d844d62027b4f0bd192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 26/67] fix: program size raises on incomplete output from size
 tool

---
 emlearn/evaluate/size.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/emlearn/evaluate/size.py b/emlearn/evaluate/size.py
index 94bb593..e7987d1 100644
--- a/emlearn/evaluate/size.py
+++ b/emlearn/evaluate/size.py
@@ -68,6 +68,8 @@ def parse_binutils_size_a_output(stdout : str) -> Dict[str, int]:
         if not section in out:
             out[section] = 0
 
+    # Comes last. If missing, the output is not complete
+    assert 'total' in out.keys(), out.keys()
     assert '.text' in out.keys(), out.keys()
     assert '.data' in out.keys(), out.keys()
     return out
-- 
2.43.0


From a1bcfc3b112c05694d988b8599a1022795c1d022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:43 +0000
Subject: [PATCH 27/67] fix: Arduino install does not report success when it
 found no headers

---
 emlearn/arduino/install.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/emlearn/arduino/install.py b/emlearn/arduino/install.py
index 12b3a7d..6f11922 100644
--- a/emlearn/arduino/install.py
+++ b/emlearn/arduino/install.py
@@ -10,7 +10,7 @@ import sys
 import argparse
 import os
 import shutil
-import glob
+import fnmatch
 
 class Error(ValueError):
     pass
@@ -28,18 +28,16 @@ def install_arduino_library(emlearn_include_dir, arduino_library_dir, update=Fal
     ensure_dir_single(arduino_library_dir)
     ensure_dir_single(library_dir)
 
-    def in_library(pattern):
-        return os.path.join(emlearn_include_dir, pattern)
-
-    patterns = [
-        in_library('eml_*.h'), # must have
-        in_library('VERSION.txt'), # convenient for debugging/support etc
-    ]
+    # NOTE: glob.glob() is not used, since it ignores errors
+    available = os.listdir(emlearn_include_dir)
+    headers = fnmatch.filter(available, 'eml_*.h') # must have
+    metadata = fnmatch.filter(available, 'VERSION.txt') # convenient for debugging/support etc
+    if not headers:
+        raise Error(f"No emlearn headers found in '{emlearn_include_dir}'")
 
     # Copy the files
-    for p in patterns:
-        for f in glob.glob(p):
-            shutil.copy(f, library_dir+'/')
+    for f in headers + metadata:
+        shutil.copy(os.path.join(emlearn_include_dir, f), library_dir+'/')
 
     return library_dir
 
-- 
2.43.0


From 5ff488c03218d922632843268356aa1e9601718c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:59 +0000
Subject: [PATCH 28/67] fix: inline neural network rejects wrong input length

---
 emlearn/templates/net_fixedpoint.jinja | 3 +++
 emlearn/templates/net_float.jinja      | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/emlearn/templates/net_fixedpoint.jinja b/emlearn/templates/net_fixedpoint.jinja
index 6dfa886..333e3ad 100644
--- a/emlearn/templates/net_fixedpoint.jinja
+++ b/emlearn/templates/net_fixedpoint.jinja
@@ -25,6 +25,9 @@ EmlError
     eml_fixed32_t *buffer1 = activations1;
     eml_fixed32_t *buffer2 = activations2;
 
+    EML_PRECONDITION(in_length == {{ prefix }}_layer_0_input_length, EmlSizeMismatch);
+    EML_PRECONDITION(buffer_length >= {{ prefix }}_activations_length, EmlSizeMismatch);
+
     // Copy input to working buffer
     for (int i=0; i<in_length; i++) {
         buffer1[i] = in[i];
diff --git a/emlearn/templates/net_float.jinja b/emlearn/templates/net_float.jinja
index 698f731..7a7f959 100644
--- a/emlearn/templates/net_float.jinja
+++ b/emlearn/templates/net_float.jinja
@@ -25,6 +25,9 @@ EmlError
     float *buffer1 = activations1;
     float *buffer2 = activations2;
 
+    EML_PRECONDITION(in_length == {{ prefix }}_layer_0_input_length, EmlSizeMismatch);
+    EML_PRECONDITION(buffer_length >= {{ prefix }}_activations_length, EmlSizeMismatch);
+
     // Copy input to working buffer
     for (int i=0; i<in_length; i++) {
         buffer1[i] = in[i];
-- 
2.43.0


From 0fa34d278edca7f6fb4e14862bd8105576325fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 29/67] fix: fileio write reports errors from line-buffered
 streams

---
 emlearn/eml_fileio.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_fileio.h b/emlearn/eml_fileio.h
index 86cb8eb..b173e88 100644
--- a/emlearn/eml_fileio.h
+++ b/emlearn/eml_fileio.h
@@ -21,7 +21,12 @@ extern "C" {
 int eml_fileio_write(void *context, const uint8_t *buffer, size_t size)
 {
     FILE* fptr = context;
-    return fwrite(buffer, 1, size, fptr);
+    const size_t written = fwrite(buffer, 1, size, fptr);
+    if (ferror(fptr)) {
+        // when a line-buffered stream fails to flush, fwrite may still return full size
+        return -1;
+    }
+    return written;
 }
 
 /**
-- 
2.43.0


From 197b286ec510e87a57cd762abd832e952c5786e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:34 +0000
Subject: [PATCH 30/67] fix: inline neural network code can be generated

---
 emlearn/net.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/net.py b/emlearn/net.py
index 3d6d616..65567f7 100644
--- a/emlearn/net.py
+++ b/emlearn/net.py
@@ -174,7 +174,7 @@ def c_generate_layer_data(activations, weights, biases, prefix : str,
         if include_constants:
             activation_name = format_name(layer_no, 'activation')
             activation_func = c_activation_function(l_act)
-            add_declaration(cgen.constant_declare(activation_name, activation_func))
+            add_declaration(cgen.constant_declare(activation_name, activation_func, dtype='EmlNetActivationFunction'))
 
         # bias
         biases_name = format_name(layer_no, 'biases') 
-- 
2.43.0


From d21c265f71b05be2689308aec9ab373d70833c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 31/67] fix: melspectrogram rejects wrong buffer lengths before
 modifying its input

---
 emlearn/eml_audio.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index ef3e262..4b663de 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -154,7 +154,15 @@ eml_audio_melspectrogram(EmlAudioMel mel_params, EmlFFT fft, EmlVector inout, Em
     const int n_fft = mel_params.n_fft;
     const int s_length = 1+n_fft/2;
     const int n_mels = mel_params.n_mels;
- 
+    const int length = inout.length;
+
+    // Check before the input is modified
+    EML_PRECONDITION(length > s_length, EmlSizeMismatch);
+    EML_PRECONDITION((length & (length-1)) == 0, EmlSizeMismatch);
+    EML_PRECONDITION(fft.length == length/2, EmlSizeMismatch);
+    EML_PRECONDITION(temp.length >= length, EmlSizeMismatch);
+    EML_PRECONDITION(n_mels <= length, EmlSizeMismatch);
+
     // Apply window
     EML_CHECK_ERROR(eml_signal_hann_apply(inout.data, inout.length));
 
-- 
2.43.0


From 3cd76a33634f545ca030288fd19137dcdc6fdbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:05 +0000
Subject: [PATCH 32/67] fix: shifting rows by the smallest integer is rejected

---
 emlearn/eml_array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index 0deeddd..dae4711 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -159,7 +159,8 @@ eml_array_shift_rows(EmlArray *self, int shift)
     const int rows = self->dims[1];
     EML_PRECONDITION(self->n_dims == 2, EmlUnsupported);
     // trying to shift more than the size of buffer is likely an error
-    EML_PRECONDITION(abs(shift) <= rows, EmlSizeMismatch);
+    // NOTE: not using abs(), which overflows for the smallest integer
+    EML_PRECONDITION(shift <= rows && shift >= -rows, EmlSizeMismatch);
     EML_PRECONDITION(shift <= 0, EmlUnsupported); // TODO: support also forward shifts
 
     const size_t row_size = self->value_size * self->dims[0];
-- 
2.43.0


From c30cbcde8488b9b243b241c2bb0af11162f48a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 33/67] fix: failed float predictions raise instead of being
 returned as NaN

---
 emlearn/common.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/emlearn/common.py b/emlearn/common.py
index 6bba389..99cfbda 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -220,6 +220,10 @@ class CompiledClassifier():
             errors = [ o for o in out if o < 0 ]
             if errors:
                 raise ValueError(f'Prediction failed with error: {errors[0]}')
+        elif self._out_dtype == 'float':
+            # NaN is used for errors
+            if numpy.isnan(out).any():
+                raise ValueError('Prediction failed')
         return out
 
     def predict_proba(self, X):
-- 
2.43.0


From f8af2f3c5c8ff0dfcaed52af65c12e016d7e1593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 34/67] fix: concurrent Arduino installs without --update do
 not overwrite each other

---
 emlearn/arduino/install.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/emlearn/arduino/install.py b/emlearn/arduino/install.py
index 6f11922..0f33fcf 100644
--- a/emlearn/arduino/install.py
+++ b/emlearn/arduino/install.py
@@ -21,12 +21,20 @@ def install_arduino_library(emlearn_include_dir, arduino_library_dir, update=Fal
     # Create directories
     library_dir = os.path.join(arduino_library_dir, 'emlearn')
 
-    if os.path.exists(library_dir) and not update:
-        raise Error(f"""Library already exists at '{library_dir}'.
+    already_exists = Error(f"""Library already exists at '{library_dir}'.
             Specifying --update will overwrite/update the files.""")
+    if os.path.exists(library_dir) and not update:
+        raise already_exists
 
     ensure_dir_single(arduino_library_dir)
-    ensure_dir_single(library_dir)
+    if update:
+        ensure_dir_single(library_dir)
+    else:
+        # another install might create it at the same time
+        try:
+            os.mkdir(library_dir)
+        except FileExistsError:
+            raise already_exists
 
     # NOTE: glob.glob() is not used, since it ignores errors
     available = os.listdir(emlearn_include_dir)
-- 
2.43.0


From 0177e7dac250416f93defcc1fb6116a56a74e5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:03 +0000
Subject: [PATCH 35/67] fix: mixture models raise for inputs that are not
 finite numbers instead of returning values for them

---
 emlearn/mixture.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index 5c7f20f..ee34fd5 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -128,7 +128,8 @@ def predict(bin_path, X, verbose=1):
         values = [ float(s) for s in outs ]
         return values
 
-    y = [ predict_one(x) for x in numpy.array(X) ]
+    X = common.check_array(X)
+    y = [ predict_one(x) for x in X ]
     return numpy.array(y)
 
 
-- 
2.43.0


From 0e97a75b78e42e4f9926208cb38b304da980efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:31 +0000
Subject: [PATCH 36/67] fix: eml_array_copy_rows: the range check overflowed
 for a start near INT_MAX

---
 emlearn/eml_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index dae4711..a6b0008 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -209,7 +209,7 @@ eml_array_copy_rows(EmlArray *self, int start, const EmlArray *other)
 
 //    fprintf(stderr, "start %d - %d- other_rows %d, self_rows %d \n",
 //        start, start+other->dims[1], other->dims[1], self->dims[1]);
-    EML_PRECONDITION((start + other->dims[1]) <= self->dims[1], EmlSizeMismatch);
+    EML_PRECONDITION(start <= self->dims[1] - other->dims[1], EmlSizeMismatch);
 
 
     const size_t row_size = self->value_size * self->dims[0];
-- 
2.43.0


From d0e040b4da414f45e39d32784a2826510b47bdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:31 +0000
Subject: [PATCH 37/67] fix: eml_array_init_full: a product of large dimensions
 overflowed and a too small buffer was accepted

---
 emlearn/eml_array.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/emlearn/eml_array.h b/emlearn/eml_array.h
index a6b0008..bc2fb36 100644
--- a/emlearn/eml_array.h
+++ b/emlearn/eml_array.h
@@ -50,8 +50,14 @@ eml_array_init_full(EmlArray *self,
     EML_PRECONDITION(n_dims >= 1, EmlSizeMismatch);
     EML_PRECONDITION(dimensions[0] >= 1, EmlSizeMismatch);
 
-    const size_t buffer_needed = eml_storage_size_array(n_dims, dimensions, value_size);
-    EML_PRECONDITION(buffer_needed <= buffer_length, EmlSizeMismatch);
+    // NOTE: limited in each step, the product of large dimensions can overflow
+    int64_t buffer_needed = value_size;
+    for (int d=0; d<n_dims; d++) {
+        EML_PRECONDITION(dimensions[d] >= 0, EmlSizeMismatch);
+        buffer_needed = buffer_needed * dimensions[d];
+        EML_PRECONDITION(buffer_needed <= INT32_MAX, EmlSizeMismatch);
+    }
+    EML_PRECONDITION(buffer_needed <= (int64_t)buffer_length, EmlSizeMismatch);
 
     /* Set dimensions */
     for (int d=0; d<EML_ARRAY_MAX_DIMS; d++) {
-- 
2.43.0


From c980d8fda62167524ac8c19fa7d6a2f01374dea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:49 +0000
Subject: [PATCH 38/67] fix: eml_benchmark_micros on Arduino: durations were
 wrong or negative when micros() wrapped around

---
 emlearn/eml_benchmark.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/emlearn/eml_benchmark.h b/emlearn/eml_benchmark.h
index af50dbc..9299eca 100644
--- a/emlearn/eml_benchmark.h
+++ b/emlearn/eml_benchmark.h
@@ -48,7 +48,11 @@ int64_t eml_benchmark_micros(void)
 
 #ifdef ARDUINO
 int64_t eml_benchmark_micros() {
-    return micros();
+    // micros() wraps around after 71 minutes. The wraps are counted using millis(), which runs for 49 days
+    const uint32_t us = micros();
+    const uint32_t ms = millis();
+    const int64_t wraps = ((int64_t)ms*1000LL - us + 0x80000000LL) / 0x100000000LL;
+    return wraps*0x100000000LL + us;
 }
 #endif
 
-- 
2.43.0


From ca831f306619a9bc9859ac52af7852821fb07716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:55 +0000
Subject: [PATCH 39/67] fix: float constants in generated code keep the
 precision of float

Six decimals are too few for small values: the precision matrix of an
elliptic envelope or mixture for features in the thousands, or net weights
for large features, became zero.
---
 emlearn/cgen.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index e83d2d6..1f50a0e 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -7,6 +7,8 @@ C code generation utilities
 
 import re
 
+import numpy
+
 VALID_IDENTIFIER_REGEX = r'^[_a-zA-Z][_a-zA-Z0-9]*$' # valid C identifiers
 from .creserved import RESERVED_WORDS
 
@@ -47,7 +49,13 @@ def constant(val, dtype='float'):
     "3.14f"
     """
     if dtype == 'float':
-        return "{:.6f}f".format(val)
+        s = "{:.6f}".format(val)
+        with numpy.errstate(over='ignore', under='ignore'):
+            single = numpy.float32(val)
+            if numpy.isfinite(single) and numpy.float32(s) != single:
+                # more digits are needed to be read back as the same value
+                s = str(single)
+        return s + 'f'
     elif 'int' in dtype:
         return "{:d}".format(int(val))
     else:
-- 
2.43.0


From 55b72d7f6a9c4cd5140bf20507ea437fa5b7b1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:25 +0000
Subject: [PATCH 40/67] fix: trees put values equal to a threshold on the same
 side as scikit-learn

Thresholds for integer features were truncated and compared with <, so that
every integer just below a threshold like 2.5 took the wrong branch.
---
 emlearn/trees.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 5371721..634d56b 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -313,7 +313,8 @@ def generate_c_nodes(flat, name, dtype='float', modifiers='static const'):
 
         left = encode_child(index, left_child)
         right = encode_child(index, right_child)
-        value = cgen.constant(value, dtype=dtype)
+        # compared using <, while scikit-learn goes left when feature <= threshold
+        value = cgen.constant(math.floor(value) + 1, dtype=dtype)
 
         return "{{ {}, {}, {}, {} }}".format(feature, value, left, right)
 
@@ -370,14 +371,23 @@ def generate_c_inlined(forest, name, n_features, n_classes=0, leaf_bits=0, dtype
     def c_leaf(data, depth):
         value = cgen.constant(data, dtype=leaf_dtype)
         return (depth*indent * ' ') + "return {};".format(value)
+    def c_threshold(value):
+        if 'int' in dtype:
+            return cgen.constant(math.floor(value), dtype=dtype)
+
+        # largest value of the type that is not above the threshold
+        threshold = numpy.float32(value)
+        if threshold > value:
+            threshold = numpy.nextafter(threshold, numpy.float32(-numpy.inf))
+        return cgen.constant(threshold, dtype=dtype)
     def c_internal(n, depth):
-        f = """{indent}if (features[{feature}] < {value}) {{
+        f = """{indent}if (features[{feature}] <= {value}) {{
         {left}
         {indent}}} else {{
         {right}
         {indent}}}""".format(**{
             'feature': cgen.constant(n[0], dtype='int'),
-            'value': cgen.constant(n[1], dtype=dtype),
+            'value': c_threshold(n[1]),
             'left': c_node(n[2], depth+1),
             'right': c_node(n[3], depth+1),
             'indent': depth*indent*' ',
-- 
2.43.0


From e1de5bae22b7dee96430ffb48ff6b300c4aaa91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:06 +0000
Subject: [PATCH 41/67] fix: predictions on the host are not limited to six or
 eight decimals

Small input values, regression values and probabilities became zero on the
way to and from the compiled program.
---
 emlearn/common.py  | 15 ++++++++-------
 emlearn/mixture.py |  6 +++---
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/emlearn/common.py b/emlearn/common.py
index 99cfbda..6d0017c 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -90,7 +90,7 @@ def build_classifier(cmodel, name, temp_dir,
             }}
             for (int class_no=0; class_no<N_CLASSES; class_no++) {{
                 const float prob = outputs[class_no];
-                printf("%d,%d,%f\\n", row, class_no, (double)prob);
+                printf("%d,%d,%.9g\\n", row, class_no, (double)prob);
             }}
         }}
         int main() {{
@@ -105,7 +105,7 @@ def build_classifier(cmodel, name, temp_dir,
         #include <eml_test.h>
 
         static void classify(const float *values, int length, int row) {{
-            printf("%d,%f\\n", row, (double){func});
+            printf("%d,%.9g\\n", row, (double){func});
         }}
         int main() {{
             const EmlError err = {test_function}(stdin, classify);
@@ -126,15 +126,16 @@ def build_classifier(cmodel, name, temp_dir,
 
     return bin_path
 
-def run_classifier(bin_path, data, out_dtype='int', float_precision=8):
+def run_classifier(bin_path, data, out_dtype='int'):
 
     # Serialize input data as CSV
-    def serialize_value(v):
-        return '{:.{prec}f}'.format(v, prec=float_precision)
+    # Uses the shortest text that is read back as the same float
+    with numpy.errstate(over='ignore', under='ignore'):
+        values = numpy.asarray(data, dtype=numpy.float32)
 
     lines = []
-    for row in data:
-        lines.append(",".join(serialize_value(v) for v in row))
+    for row in values:
+        lines.append(",".join(str(v) for v in row))
     stdin = '\n'.join(lines)
 
     assert len(lines) == len(data), (len(lines), data.shape)
diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index ee34fd5..86dbe87 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -152,7 +152,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
         if (out != EmlOk) {{
             return -out; // error
         }}
-        printf("%f", score);
+        printf("%.9g", score);
         """
     elif output_type == 'predict_log_proba':
         output_code = f"""
@@ -162,7 +162,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
             return -out; // error
         }}
         for (int i=0; i<n_components; i++) {{
-            printf("%.6f", output[i]);
+            printf("%.9g", output[i]);
             if (i != (n_components-1)) {{
                 printf(",");
             }}
@@ -177,7 +177,7 @@ def build_executable(wrapper, out_dir, output_type, name='gmm'):
             return -out_resp; // error
         }}
         for (int i=0; i<n_components; i++) {{
-                printf("%.6f", resp[i]);
+                printf("%.9g", resp[i]);
                 if (i != (n_components-1)) {{
                     printf(",");
                 }}
-- 
2.43.0


From e16265e008d5ad4f75ade64ea8c62ba3feea314d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:37 +0000
Subject: [PATCH 42/67] fix: generated float constants do not depend on numpy
 print options

str() of a numpy.float32 has eight digits with legacy print options, too few
to be read back as the same value.
---
 emlearn/cgen.py   | 2 +-
 emlearn/common.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/emlearn/cgen.py b/emlearn/cgen.py
index 1f50a0e..3f643dd 100644
--- a/emlearn/cgen.py
+++ b/emlearn/cgen.py
@@ -54,7 +54,7 @@ def constant(val, dtype='float'):
             single = numpy.float32(val)
             if numpy.isfinite(single) and numpy.float32(s) != single:
                 # more digits are needed to be read back as the same value
-                s = str(single)
+                s = '{:#.9g}'.format(single)
         return s + 'f'
     elif 'int' in dtype:
         return "{:d}".format(int(val))
diff --git a/emlearn/common.py b/emlearn/common.py
index 6d0017c..762d991 100644
--- a/emlearn/common.py
+++ b/emlearn/common.py
@@ -129,13 +129,13 @@ def build_classifier(cmodel, name, temp_dir,
 def run_classifier(bin_path, data, out_dtype='int'):
 
     # Serialize input data as CSV
-    # Uses the shortest text that is read back as the same float
+    # Nine digits are read back as the same float
     with numpy.errstate(over='ignore', under='ignore'):
         values = numpy.asarray(data, dtype=numpy.float32)
 
     lines = []
     for row in values:
-        lines.append(",".join(str(v) for v in row))
+        lines.append(",".join('{:.9g}'.format(v) for v in row))
     stdin = '\n'.join(lines)
 
     assert len(lines) == len(data), (len(lines), data.shape)
-- 
2.43.0


From 81a4b6cabc7c344604bb6ea54a4b273c8d127347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:51 +0000
Subject: [PATCH 43/67] fix: leaves with many classes are single lines in CSV
 files of trees

They were wrapped over several lines, or shortened with dots, depending on
numpy print options.
---
 emlearn/trees.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index 634d56b..df4991c 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -898,6 +898,9 @@ class Wrapper:
             lines.append(f'c,{self.n_classes}')
             lines.append(f'lb,{self.leaf_bits}')
             for l in leaves:
+                if numpy.ndim(l):
+                    # always on a single line, and with all the values
+                    l = '[' + ' '.join(str(v) for v in l) + ']'
                 lines.append(f'l,{l}')
             for r in roots:
                 lines.append(f'r,{r}')
-- 
2.43.0


From 610f0efa139c241ae0453246c278eee9fa868a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:09 +0000
Subject: [PATCH 44/67] fix: thresholds in CSV files of trees keep the
 precision of float

Six decimals are too few for features with small values.
---
 emlearn/trees.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/emlearn/trees.py b/emlearn/trees.py
index df4991c..59b2ddb 100644
--- a/emlearn/trees.py
+++ b/emlearn/trees.py
@@ -911,7 +911,9 @@ class Wrapper:
                 left = encode_child(index, left_child)
                 right = encode_child(index, right_child)
 
-                serialized = f'n,{feature},{value.round(6)},{left},{right}'
+                # nine digits are read back as the same float
+                value = float('{:.9g}'.format(value))
+                serialized = f'n,{feature},{value},{left},{right}'
                 return serialized
 
             for i, n in enumerate(nodes):
-- 
2.43.0


From ece1713b9e55c797e8b3425d9edb4868efab19fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:30 +0000
Subject: [PATCH 45/67] fix: inputs of mixture models do not depend on numpy
 print options

str() of a numpy.float32 has eight digits with legacy print options, too few
to be read back as the same value.
---
 emlearn/mixture.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/mixture.py b/emlearn/mixture.py
index 86dbe87..abaf73a 100644
--- a/emlearn/mixture.py
+++ b/emlearn/mixture.py
@@ -111,7 +111,7 @@ def predict(bin_path, X, verbose=1):
 
     def predict_one(x):
         args = [ bin_path ]
-        args += [ str(v) for v in x ]
+        args += [ str(float(v)) for v in x ]
         out = subprocess.check_output(args)
         if verbose > 0:
             print(f"run args={args} out={out} ")
-- 
2.43.0


From 96f935ba1e7d58b6cdd993af935aabe66c50075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:59 +0000
Subject: [PATCH 46/67] fix: failed fetches of sensor samples are counted

---
 .../zephyr/motion_recognition/src/sensor_reader.c              | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/platform_examples/zephyr/motion_recognition/src/sensor_reader.c b/platform_examples/zephyr/motion_recognition/src/sensor_reader.c
index 3699046..d457ea5 100644
--- a/platform_examples/zephyr/motion_recognition/src/sensor_reader.c
+++ b/platform_examples/zephyr/motion_recognition/src/sensor_reader.c
@@ -19,8 +19,7 @@ sensor_chunk_reader_task(void *context, void *, void *)
         // Read data
 	    const int fetch_ret = sensor_sample_fetch(self->dev);
 	    if (fetch_ret < 0) {
-            self->fetch_errors += 0;
-
+            self->fetch_errors += 1;
 	    }
 	    for (size_t i = 0; i < self->n_channels; i++) {
             struct sensor_value value;
-- 
2.43.0


From 4ae9cb5a31e3bb77e2c42586a35a48220d259dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:59 +0000
Subject: [PATCH 47/67] fix: a sensor channel that cannot be read keeps its
 last value

---
 .../zephyr/motion_recognition/src/sensor_reader.c          | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/platform_examples/zephyr/motion_recognition/src/sensor_reader.c b/platform_examples/zephyr/motion_recognition/src/sensor_reader.c
index d457ea5..c66c6fb 100644
--- a/platform_examples/zephyr/motion_recognition/src/sensor_reader.c
+++ b/platform_examples/zephyr/motion_recognition/src/sensor_reader.c
@@ -11,7 +11,7 @@ static void
 sensor_chunk_reader_task(void *context, void *, void *)
 {
     struct sensor_chunk_reader * self = (struct sensor_chunk_reader *)context;
-    float values[SENSOR_CHUNK_READER_MAX_CHANNELS];
+    float values[SENSOR_CHUNK_READER_MAX_CHANNELS] = {0.0f,};
 
     // MAYBE: support a way of exiting loop gracefully?
     while (1) {
@@ -24,10 +24,11 @@ sensor_chunk_reader_task(void *context, void *, void *)
 	    for (size_t i = 0; i < self->n_channels; i++) {
             struct sensor_value value;
 		    const int get_ret = sensor_channel_get(self->dev, self->channels[i], &value);
-            values[i] = sensor_value_to_double(&value);
-
 		    if (get_ret < 0) {
+                // no new value, keep the last one
                 self->get_errors += 1;
+		    } else {
+                values[i] = sensor_value_to_double(&value);
 		    }
 	    }
 
-- 
2.43.0


From 0e4f24e439bb71fb388701b6ad4b6558ea8a9ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:59 +0000
Subject: [PATCH 48/67] fix: a restarted sensor reader does not mix samples
 from before and after the stop

---
 .../zephyr/motion_recognition/src/sensor_reader.c              | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platform_examples/zephyr/motion_recognition/src/sensor_reader.c b/platform_examples/zephyr/motion_recognition/src/sensor_reader.c
index c66c6fb..0f59ff3 100644
--- a/platform_examples/zephyr/motion_recognition/src/sensor_reader.c
+++ b/platform_examples/zephyr/motion_recognition/src/sensor_reader.c
@@ -70,6 +70,9 @@ sensor_chunk_reader_task(void *context, void *, void *)
 void
 sensor_chunk_reader_start(struct sensor_chunk_reader *self) 
 {
+    // do not continue a window from before a stop
+    self->read_samples_index = 0;
+
     // start new thread
     k_tid_t thread_id = k_thread_create(self->thread, self->stack,
                                      self->stack_size,
-- 
2.43.0


From bb9b8cce5933ece17dba19fe15ab17ce939c6126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:24 +0000
Subject: [PATCH 49/67] fix: sensor reader does not overwrite a chunk that the
 receiver is using

---
 platform_examples/zephyr/motion_recognition/src/main.c |  2 +-
 .../zephyr/motion_recognition/src/sensor_reader.c      | 10 ++++++++--
 .../zephyr/motion_recognition/src/sensor_reader.h      |  7 ++++++-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/platform_examples/zephyr/motion_recognition/src/main.c b/platform_examples/zephyr/motion_recognition/src/main.c
index 77a5029..21b56c3 100644
--- a/platform_examples/zephyr/motion_recognition/src/main.c
+++ b/platform_examples/zephyr/motion_recognition/src/main.c
@@ -59,7 +59,7 @@ float feature_values[FEATURE_COLUMNS_LENGTH];
 
 
 // Reader internals
-float sensor_reader_output_buffer[WINDOW_LENGTH*N_CHANNELS];
+float sensor_reader_output_buffer[SENSOR_CHUNK_READER_BUFFERS*WINDOW_LENGTH*N_CHANNELS];
 float sensor_reader_new_buffer[HOP_LENGTH*N_CHANNELS];
 
 #define SENSOR_READER_STACK_SIZE 1000
diff --git a/platform_examples/zephyr/motion_recognition/src/sensor_reader.c b/platform_examples/zephyr/motion_recognition/src/sensor_reader.c
index 0f59ff3..d4c1561 100644
--- a/platform_examples/zephyr/motion_recognition/src/sensor_reader.c
+++ b/platform_examples/zephyr/motion_recognition/src/sensor_reader.c
@@ -46,18 +46,24 @@ sensor_chunk_reader_task(void *context, void *, void *)
             const int out_length = self->n_channels * self->window_length;
 
             // Push onto output buffer
-            memcpy(self->output_buffer, self->read_samples, sizeof(float)*out_length);
+            float *output = self->output_buffer + (self->output_buffer_index*out_length);
+            memcpy(output, self->read_samples, sizeof(float)*out_length);
             self->read_samples_index = 0;
 
             // Send as message
-            struct sensor_chunk_msg msg = { 1, self->output_buffer, out_length };
+            struct sensor_chunk_msg msg = { 1, output, out_length };
 #if 0
     printk("reader-task-got-data index=%d \n", self->read_samples_index);
 #endif
+            // The receiver now owns this part of the output buffer. Must not be stopped in between
+            k_sched_lock();
             const int put_status = k_msgq_put(self->queue, &msg, K_NO_WAIT);
             if (put_status < 0) {
                 self->put_errors += 1;
+            } else {
+                self->output_buffer_index = (self->output_buffer_index + 1) % SENSOR_CHUNK_READER_BUFFERS;
             }
+            k_sched_unlock();
 
         }
 
diff --git a/platform_examples/zephyr/motion_recognition/src/sensor_reader.h b/platform_examples/zephyr/motion_recognition/src/sensor_reader.h
index 09f860e..bf785f1 100644
--- a/platform_examples/zephyr/motion_recognition/src/sensor_reader.h
+++ b/platform_examples/zephyr/motion_recognition/src/sensor_reader.h
@@ -3,6 +3,11 @@
 #define SENSOR_CHUNK_READER_MAX_CHANNELS 9
 #endif
 
+// Number of windows in the output buffer:
+// one in use by the receiver (until it gets the next message), one in the queue (of length 1),
+// and one being filled
+#define SENSOR_CHUNK_READER_BUFFERS 3
+
 struct sensor_chunk_reader {
     int window_length;
     int hop_length;
@@ -11,7 +16,7 @@ struct sensor_chunk_reader {
     float *read_samples;
     int read_samples_index;
 
-    float *output_buffer;
+    float *output_buffer; // SENSOR_CHUNK_READER_BUFFERS * n_channels * window_length
     int output_buffer_index;
 
     int n_channels;
-- 
2.43.0


From 95a1d196f53cbe884cf247641e51e034d196dc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:40 +0000
Subject: [PATCH 50/67] fix: sensor log is not reported as written when closing
 the file fails

---
 .../zephyr/motion_recognition/src/main.c              | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/platform_examples/zephyr/motion_recognition/src/main.c b/platform_examples/zephyr/motion_recognition/src/main.c
index 21b56c3..314b13c 100644
--- a/platform_examples/zephyr/motion_recognition/src/main.c
+++ b/platform_examples/zephyr/motion_recognition/src/main.c
@@ -97,7 +97,11 @@ int write_header(const char *output_path)
         return -1;
     }
 
-    fclose(writer->stream);
+    if (fclose(writer->stream) != 0) {
+        // buffered data did not get to disk
+        fprintf(stderr, "header-close-fail\n");
+        return -1;
+    }
     return 0;
 }
 
@@ -135,9 +139,10 @@ int write_samples(const char *output_path, float *values, int length)
         }
     }
 
-    fclose(writer->stream);
+    // Buffered data gets to disk here, might fail
+    const int close_err = fclose(writer->stream);
 
-    if (write_errors) {
+    if (write_errors || close_err) {
         return -2;
     } else if (write_success == 0) {
         return -3;
-- 
2.43.0


From fdbc66161887c65c212b4fc42038b222fa88b4a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:08 +0000
Subject: [PATCH 51/67] fix: a row that failed to be written to the sensor log
 does not garble the next one

---
 .../zephyr/motion_recognition/src/main.c             | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/platform_examples/zephyr/motion_recognition/src/main.c b/platform_examples/zephyr/motion_recognition/src/main.c
index 314b13c..442b4d9 100644
--- a/platform_examples/zephyr/motion_recognition/src/main.c
+++ b/platform_examples/zephyr/motion_recognition/src/main.c
@@ -124,9 +124,18 @@ int write_samples(const char *output_path, float *values, int length)
     }
     writer->stream = write_file;
 
+    int write_errors = 0;
+
+    // A failed write can leave an incomplete row at the end of the file. Do not append to that
+    static bool incomplete_row = false;
+    if (incomplete_row) {
+        if (eml_fileio_write(write_file, (const uint8_t *)EML_CSV_EOL, 1) != 1) {
+            write_errors += 1;
+        }
+    }
+
     // Write sensor data values to file
     const int rows = length / N_CHANNELS;
-    int write_errors = 0;
     int write_success = 0;
     for (int i=0; i<rows; i++) {
         const float *row = values + (i*N_CHANNELS);
@@ -141,6 +150,7 @@ int write_samples(const char *output_path, float *values, int length)
 
     // Buffered data gets to disk here, might fail
     const int close_err = fclose(writer->stream);
+    incomplete_row = (write_errors || close_err);
 
     if (write_errors || close_err) {
         return -2;
-- 
2.43.0


From daccf784bc76bb067e9b98082a6bc5dcc325b955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:48 +0000
Subject: [PATCH 52/67] fix: a range of FFT features that ends before it starts
 is rejected

---
 examples/motion_recognition/motion_preprocessing.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/examples/motion_recognition/motion_preprocessing.h b/examples/motion_recognition/motion_preprocessing.h
index dc147ba..8a68ef7 100644
--- a/examples/motion_recognition/motion_preprocessing.h
+++ b/examples/motion_recognition/motion_preprocessing.h
@@ -253,7 +253,10 @@ motion_preprocessor_set_fft_features(struct motion_preprocessor *self,
     if (self->fft_length != 0 && start > self->fft_length) {
         return -3;
     }
-    
+    if (end < start) {
+        return -4;
+    }
+
     self->fft_feature_start = start;
     self->fft_feature_end = end;
 
-- 
2.43.0


From 4e89560bcaf042fb540ff4f83d814fa541b2e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:48 +0000
Subject: [PATCH 53/67] fix: motion_process stops with an error when a row
 cannot be read

---
 examples/motion_recognition/tools/motion_process.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/examples/motion_recognition/tools/motion_process.c b/examples/motion_recognition/tools/motion_process.c
index 4cedafb..4f4f008 100644
--- a/examples/motion_recognition/tools/motion_process.c
+++ b/examples/motion_recognition/tools/motion_process.c
@@ -114,6 +114,10 @@ read_overlapped_windows(EmlCsvReader *reader,
             // input stream finished, give partial window read
             return *read_index;
         }
+        if (values_read < 0) {
+            // could not read, or not a valid row
+            return values_read;
+        }
 
         // Parse as numbers
         for (int i=0; i<reader->n_columns; i++) {
@@ -380,6 +384,7 @@ main(int argc, const char *argv[])
     int window_no = 0;
     int window_read_index = 0;
     int read_attempts = 0;
+    int read_err = 0;
     const int max_read_attempts = 100;
     while (read_attempts < max_read_attempts) {
 
@@ -439,6 +444,7 @@ main(int argc, const char *argv[])
         } else if (window_read < 0) {
             // error
             fprintf(stderr, "window read error %d\n", window_read);
+            read_err = window_read;
             break;
         } else if (window_read != 0) {
             // partial window, typically at end-of-input. Ignored for now
@@ -456,5 +462,9 @@ main(int argc, const char *argv[])
     const float last_timestamp = output_values[0];
     printf("main-done windows=%d time=%.3f\n", window_no, last_timestamp);
 
+    if (read_err) {
+        return 5;
+    }
+
     return 0;
 }
-- 
2.43.0


From a4dd7b5d3a997f92c484405fedfcd814877ac6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:48 +0000
Subject: [PATCH 54/67] fix: motion_process reports when closing the output
 fails

---
 examples/motion_recognition/tools/motion_process.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/examples/motion_recognition/tools/motion_process.c b/examples/motion_recognition/tools/motion_process.c
index 4f4f008..057e372 100644
--- a/examples/motion_recognition/tools/motion_process.c
+++ b/examples/motion_recognition/tools/motion_process.c
@@ -456,9 +456,14 @@ main(int argc, const char *argv[])
 
     }
 
-    fclose(write_file);
     fclose(read_file);
 
+    // Buffered output gets written here, might fail
+    if (fclose(write_file) != 0) {
+        fprintf(stderr, "failed to close output\n");
+        return 6;
+    }
+
     const float last_timestamp = output_values[0];
     printf("main-done windows=%d time=%.3f\n", window_no, last_timestamp);
 
-- 
2.43.0


From 43e0ae04c26ea4c51f0685b0fb1002f42fee438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:48 +0000
Subject: [PATCH 55/67] fix: motion_process rejects window and hop lengths that
 do not make windows

---
 examples/motion_recognition/tools/motion_process.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/examples/motion_recognition/tools/motion_process.c b/examples/motion_recognition/tools/motion_process.c
index 057e372..4e4b73c 100644
--- a/examples/motion_recognition/tools/motion_process.c
+++ b/examples/motion_recognition/tools/motion_process.c
@@ -270,6 +270,9 @@ main(int argc, const char *argv[])
     if (cfg.window_length > WINDOW_LENGTH_MAX) {
         return 31;
     }
+    if (cfg.hop_length < 1 || cfg.hop_length > cfg.window_length) {
+        return 32;
+    }
     const int window_buffer_length = cfg.window_length*SENSOR_DATA_COLUMNS;
 
     // Setup preprocessing
-- 
2.43.0


From c98f91dcf082d4d4746caa4114bbc8051c59c632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:51 +0000
Subject: [PATCH 56/67] Revert "fix: motion_process rejects window and hop
 lengths that do not make windows"

This reverts commit 43e0ae04c26ea4c51f0685b0fb1002f42fee438d.
---
 examples/motion_recognition/tools/motion_process.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/examples/motion_recognition/tools/motion_process.c b/examples/motion_recognition/tools/motion_process.c
index 4e4b73c..057e372 100644
--- a/examples/motion_recognition/tools/motion_process.c
+++ b/examples/motion_recognition/tools/motion_process.c
@@ -270,9 +270,6 @@ main(int argc, const char *argv[])
     if (cfg.window_length > WINDOW_LENGTH_MAX) {
         return 31;
     }
-    if (cfg.hop_length < 1 || cfg.hop_length > cfg.window_length) {
-        return 32;
-    }
     const int window_buffer_length = cfg.window_length*SENSOR_DATA_COLUMNS;
 
     // Setup preprocessing
-- 
2.43.0


From 096cb47e493fd4eba9021ce7b0535e6068db45ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:51 +0000
Subject: [PATCH 57/67] Revert "fix: motion_process reports when closing the
 output fails"

This reverts commit a4dd7b5d3a997f92c484405fedfcd814877ac6c3.
---
 examples/motion_recognition/tools/motion_process.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/examples/motion_recognition/tools/motion_process.c b/examples/motion_recognition/tools/motion_process.c
index 057e372..4f4f008 100644
--- a/examples/motion_recognition/tools/motion_process.c
+++ b/examples/motion_recognition/tools/motion_process.c
@@ -456,14 +456,9 @@ main(int argc, const char *argv[])
 
     }
 
+    fclose(write_file);
     fclose(read_file);
 
-    // Buffered output gets written here, might fail
-    if (fclose(write_file) != 0) {
-        fprintf(stderr, "failed to close output\n");
-        return 6;
-    }
-
     const float last_timestamp = output_values[0];
     printf("main-done windows=%d time=%.3f\n", window_no, last_timestamp);
 
-- 
2.43.0


From 201fcf3a8bd5fdbc2ebaf2b2dd1c450e08a47ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:51 +0000
Subject: [PATCH 58/67] Revert "fix: motion_process stops with an error when a
 row cannot be read"

This reverts commit 4e89560bcaf042fb540ff4f83d814fa541b2e88a.
---
 examples/motion_recognition/tools/motion_process.c | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/examples/motion_recognition/tools/motion_process.c b/examples/motion_recognition/tools/motion_process.c
index 4f4f008..4cedafb 100644
--- a/examples/motion_recognition/tools/motion_process.c
+++ b/examples/motion_recognition/tools/motion_process.c
@@ -114,10 +114,6 @@ read_overlapped_windows(EmlCsvReader *reader,
             // input stream finished, give partial window read
             return *read_index;
         }
-        if (values_read < 0) {
-            // could not read, or not a valid row
-            return values_read;
-        }
 
         // Parse as numbers
         for (int i=0; i<reader->n_columns; i++) {
@@ -384,7 +380,6 @@ main(int argc, const char *argv[])
     int window_no = 0;
     int window_read_index = 0;
     int read_attempts = 0;
-    int read_err = 0;
     const int max_read_attempts = 100;
     while (read_attempts < max_read_attempts) {
 
@@ -444,7 +439,6 @@ main(int argc, const char *argv[])
         } else if (window_read < 0) {
             // error
             fprintf(stderr, "window read error %d\n", window_read);
-            read_err = window_read;
             break;
         } else if (window_read != 0) {
             // partial window, typically at end-of-input. Ignored for now
@@ -462,9 +456,5 @@ main(int argc, const char *argv[])
     const float last_timestamp = output_values[0];
     printf("main-done windows=%d time=%.3f\n", window_no, last_timestamp);
 
-    if (read_err) {
-        return 5;
-    }
-
     return 0;
 }
-- 
2.43.0


From 53496197e80ca521864d241baf1e9d44e9e40ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:51 +0000
Subject: [PATCH 59/67] Revert "fix: a range of FFT features that ends before
 it starts is rejected"

This reverts commit daccf784bc76bb067e9b98082a6bc5dcc325b955.
---
 examples/motion_recognition/motion_preprocessing.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/examples/motion_recognition/motion_preprocessing.h b/examples/motion_recognition/motion_preprocessing.h
index 8a68ef7..dc147ba 100644
--- a/examples/motion_recognition/motion_preprocessing.h
+++ b/examples/motion_recognition/motion_preprocessing.h
@@ -253,10 +253,7 @@ motion_preprocessor_set_fft_features(struct motion_preprocessor *self,
     if (self->fft_length != 0 && start > self->fft_length) {
         return -3;
     }
-    if (end < start) {
-        return -4;
-    }
-
+    
     self->fft_feature_start = start;
     self->fft_feature_end = end;
 
-- 
2.43.0


From 1d634563619dd58c925a49ee54ce3b7c8f6f22d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:56 +0000
Subject: [PATCH 60/67] fix: bindings throw exceptions by value, so that Python
 gets their messages

---
 bindings/emlpy_common.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/emlpy_common.hpp b/bindings/emlpy_common.hpp
index a406299..cd76075 100644
--- a/bindings/emlpy_common.hpp
+++ b/bindings/emlpy_common.hpp
@@ -37,7 +37,7 @@ public:
 #define EMLPY_PRECONDITION(expr, msg) \
     do { \
         if (!(expr)) { \
-            throw new emlpy::PreconditionFailed(msg); \
+            throw emlpy::PreconditionFailed(msg); \
         } \
     } while (0);
 
@@ -46,7 +46,7 @@ public:
     do { \
         const EmlError _e = (expr); \
         if (_e != EmlOk) { \
-            throw new emlpy::Error(_e); \
+            throw emlpy::Error(_e); \
         } \
     } while (0);
 
-- 
2.43.0


From 5a1e5d1af57bb0c53c39a555ec6fa114b4ee1d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:56 +0000
Subject: [PATCH 61/67] fix: sparse_filterbank rejects filters outside of the
 input and missing coefficients

---
 bindings/eml_audio.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/bindings/eml_audio.cpp b/bindings/eml_audio.cpp
index 430007e..f1cd496 100644
--- a/bindings/eml_audio.cpp
+++ b/bindings/eml_audio.cpp
@@ -147,6 +147,20 @@ sparse_filterbank_py(py::array_t<float, py::array::c_style | py::array::forcecas
     EMLPY_PRECONDITION(starts.shape(0) == stops.shape(0), "Number of starts must equals stops");
 
     const int output_length = (int)starts.shape(0);
+
+    // Every filter must be inside the input, and have all its coefficients
+    int64_t n_coeffs = 0;
+    for (int i=0; i<output_length; i++) {
+        const int start = starts.data()[i];
+        const int stop = stops.data()[i];
+        if (start > stop) {
+            continue; // empty filter
+        }
+        EMLPY_PRECONDITION(start >= 0 && stop < in.shape(0), "Filter is outside input");
+        n_coeffs += (int64_t)stop - start + 1;
+    }
+    EMLPY_PRECONDITION(n_coeffs <= coeffs.shape(0), "Too few coefficients");
+
     auto ret = py::array_t<float>(output_length);
 
     EMLPY_CHECK_ERROR(eml_sparse_filterbank(in.data(),
-- 
2.43.0


From cae7203c4f37376919b37517b6241e19b074d02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:56 +0000
Subject: [PATCH 62/67] fix: second-order sections must have 6 coefficients

---
 bindings/eml_signal.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bindings/eml_signal.cpp b/bindings/eml_signal.cpp
index 980085d..9d0f0ad 100644
--- a/bindings/eml_signal.cpp
+++ b/bindings/eml_signal.cpp
@@ -21,6 +21,7 @@ iirfilter_py(py::array_t<float, py::array::c_style | py::array::forcecast> sos,
 
 {
     EMLPY_PRECONDITION(sos.ndim() == 2, "SOS coefficients must have dimensions 2");
+    EMLPY_PRECONDITION(sos.shape(1) == 6, "SOS coefficients must have 6 columns");
     EMLPY_PRECONDITION(data.ndim() == 1, "data must have dimensions 1");
 
     const int n_stages = (int)sos.shape(0);
-- 
2.43.0


From 03ea3d453c8b233efeb5c516b7eeecb46e614b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:56 +0000
Subject: [PATCH 63/67] fix: mel filters outside of the spectrum are rejected
 before anything is written

---
 emlearn/eml_audio.h | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/emlearn/eml_audio.h b/emlearn/eml_audio.h
index 4b663de..cda57a3 100644
--- a/emlearn/eml_audio.h
+++ b/emlearn/eml_audio.h
@@ -76,6 +76,20 @@ mel_bin(EmlAudioMel params, int n) {
     return eml_audio_mel_bin(params, hz);
 }
 
+// Check that all the filters are inside the spectrum
+static EmlError
+mel_check(EmlAudioMel params) {
+    const int max_bin = 1+params.n_fft/2;
+
+    for (int n=0; n<params.n_mels+2; n++) {
+        const int bin = mel_bin(params, n);
+        if (bin < 0 || bin >= max_bin) {
+            return EmlUnknownError;
+        }
+    }
+    return EmlOk;
+}
+
 float
 eml_fft_freq(EmlAudioMel params, int n) {
     const float end = params.samplerate/2.0f;
@@ -92,6 +106,7 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
     const int max_bin = 1+mel.n_fft/2;
     EML_PRECONDITION(max_bin <= spec.length, EmlSizeMismatch);
     EML_PRECONDITION(mel.n_mels == mels.length, EmlSizeMismatch);
+    EML_CHECK_ERROR(mel_check(mel));
 
     // Note: no normalization
     for (int m=1; m<mel.n_mels+1; m++) {
@@ -99,13 +114,6 @@ eml_audio_melspec(EmlAudioMel mel, EmlVector spec, EmlVector mels) {
         const int center = mel_bin(mel, m);
         const int right = mel_bin(mel, m+1);
 
-        if (left < 0) {
-            return EmlUnknownError;
-        }
-        if (right > max_bin) {
-            return EmlUnknownError;
-        }
-
         const float fdifflow = eml_audio_mel_center(mel, m) - eml_audio_mel_center(mel, m-1);
         const float fdiffupper = eml_audio_mel_center(mel, m+1) - eml_audio_mel_center(mel, m);
 
@@ -162,6 +170,7 @@ eml_audio_melspectrogram(EmlAudioMel mel_params, EmlFFT fft, EmlVector inout, Em
     EML_PRECONDITION(fft.length == length/2, EmlSizeMismatch);
     EML_PRECONDITION(temp.length >= length, EmlSizeMismatch);
     EML_PRECONDITION(n_mels <= length, EmlSizeMismatch);
+    EML_CHECK_ERROR(mel_check(mel_params));
 
     // Apply window
     EML_CHECK_ERROR(eml_signal_hann_apply(inout.data, inout.length));
-- 
2.43.0


From 200e0137abeff5c55e5c6e059fd73068a177c10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:56 +0000
Subject: [PATCH 64/67] fix: leaf representation is checked before the output
 is modified

---
 emlearn/eml_trees.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 35025a3..0d8cabd 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -124,6 +124,7 @@ eml_trees_predict_proba(const EmlTrees *self,
     EML_PRECONDITION(features_length == self->n_features, EmlSizeMismatch);
     const int32_t n_outputs = eml_trees_outputs_proba(self);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
+    EML_PRECONDITION(self->leaf_bits == 0 || self->leaf_bits == 8, EmlUnsupported);
 
     for (int i=0; i<out_length; i++) {
         out[i] = 0.0f;
-- 
2.43.0


From 72f519283d49a186ac5a22c20826c568ee2f5497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:37:56 +0000
Subject: [PATCH 65/67] fix: regression with an uninitialised network is
 rejected

---
 emlearn/eml_net.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/emlearn/eml_net.h b/emlearn/eml_net.h
index 2cd984c..8f0e22c 100644
--- a/emlearn/eml_net.h
+++ b/emlearn/eml_net.h
@@ -364,6 +364,7 @@ eml_net_predict(EmlNet *model, const float *features, int32_t features_length) {
 EmlError
 eml_net_regress(EmlNet *model, const float *features, int32_t features_length, float *out, int32_t out_length)
 {
+    EML_PRECONDITION(eml_net_valid(model), EmlUninitialized);
     EML_PRECONDITION(out, EmlUninitialized);
     const int32_t n_outputs = eml_net_outputs(model);
     EML_PRECONDITION(out_length == n_outputs, EmlSizeMismatch);
-- 
2.43.0


From 87f201685313f520713fbafcdac55175c15ed62d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:16 +0000
Subject: [PATCH 66/67] fix: arrays in log entries are key=value pairs

---
 emlearn/eml_log.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_log.h b/emlearn/eml_log.h
index f1ab773..a10f7b8 100644
--- a/emlearn/eml_log.h
+++ b/emlearn/eml_log.h
@@ -109,7 +109,7 @@ Add an array
 */
 #define EML_LOG_ADD_ARRAY(key, arr, len, fmt) \
 do { \
-    EML_LOG_PRINTF(" %s", key); \
+    EML_LOG_PRINTF(" %s=", key); \
     EML_LOG_PRINT_ARRAY(arr, len, fmt); \
 } while (0)
 
-- 
2.43.0


From 358a2b89207c01b3d3589d65df7609e0f7b30e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:16 +0000
Subject: [PATCH 67/67] fix: the output of a regression is logged as the float
 it is

---
 emlearn/eml_trees.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/emlearn/eml_trees.h b/emlearn/eml_trees.h
index 0d8cabd..db213ef 100644
--- a/emlearn/eml_trees.h
+++ b/emlearn/eml_trees.h
@@ -288,7 +288,7 @@ eml_trees_regress(const EmlTrees *forest,
     out[0] = sum / forest->n_trees;
 
     EML_LOG_BEGIN("eml-trees-regress-end");
-    EML_LOG_ADD_INTEGER("output", out[0]);
+    EML_LOG_ADD_FLOAT("output", out[0]);
     EML_LOG_END();
 
     return EmlOk;
-- 
2.43.0

