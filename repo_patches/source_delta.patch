From 79a25bacd58dae3b54bbd8ad4d4b70544fcb547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 01/11] fix: resolve colliding property names in a fixed order

normalize_properties visited the keys of a HashMap in enumeration order, so
which of two properties renamed to the same column name survived differed
from process to process.
---
 src/ast.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ast.rs b/src/ast.rs
index f350af5..b480449 100644
--- a/src/ast.rs
+++ b/src/ast.rs
@@ -388,7 +388,9 @@ impl Tag {
     pub fn normalize_properties(&mut self, normalize_case: bool) {
         if let Type::Object(ref mut object) = self.data_type {
             let fields = &mut object.fields;
-            let keys: Vec<String> = fields.keys().cloned().collect();
+            let mut keys: Vec<String> = fields.keys().cloned().collect();
+            // The order decides which property wins when names collide
+            keys.sort();
 
             for key in keys {
                 // Replace property names with the normalized property name
-- 
2.43.0


From c768e1f3fa94c7a1d5d4fb765806038ebdc0c929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:58 +0000
Subject: [PATCH 02/11] fix: merge patternProperties in a fixed order

The values of a HashMap were merged into one map value type in enumeration
order, and merging is order dependent, so the mode of nested columns differed
from process to process.
---
 src/jsonschema.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jsonschema.rs b/src/jsonschema.rs
index 5977f46..809f268 100644
--- a/src/jsonschema.rs
+++ b/src/jsonschema.rs
@@ -1,7 +1,7 @@
 /// A JSON Schema serde module derived from the v4 spec.
 /// Refer to http://json-schema.org/draft-04/schema for spec details.
 use serde_json::{json, Value};
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 
 use super::ast;
 use super::Context;
@@ -43,7 +43,8 @@ struct Object {
     #[serde(skip_serializing_if = "Option::is_none")]
     additional_properties: Option<AdditionalProperties>,
     #[serde(skip_serializing_if = "Option::is_none")]
-    pattern_properties: Option<HashMap<String, Box<Tag>>>,
+    // Ordered, because merging the values into one type depends on their order
+    pattern_properties: Option<BTreeMap<String, Box<Tag>>>,
     #[serde(skip_serializing_if = "Option::is_none")]
     required: Option<HashSet<String>>,
 }
-- 
2.43.0


From 86b87f3ff816f47b099f68fbb285791870be40a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:30 +0000
Subject: [PATCH 03/11] fix: leave backups out of the generated tests

---
 build.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/build.rs b/build.rs
index 00f1c31..51f051e 100644
--- a/build.rs
+++ b/build.rs
@@ -189,6 +189,8 @@ use serde_json::Value;
             Some(os_str) => !os_str.to_str().unwrap().starts_with('.'),
             None => false,
         })
+        // Leave out everything but test suites, such as the backups made below.
+        .filter(|e| e.extension().map_or(false, |ext| ext == "json"))
         .collect();
     paths.sort();
     for path in paths {
-- 
2.43.0


From e02041e2693af105151fcc6278964e7a7964cb59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:09 +0000
Subject: [PATCH 04/11] fix: report a data set that stopped encoding part-way

---
 scripts/mps-generate-avro-data-helper.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/mps-generate-avro-data-helper.py b/scripts/mps-generate-avro-data-helper.py
index cc29d1e..4dc24f2 100755
--- a/scripts/mps-generate-avro-data-helper.py
+++ b/scripts/mps-generate-avro-data-helper.py
@@ -110,5 +110,6 @@ except:
     with open("test-schema.json", "w") as f:
         json.dump(schema.to_json(), f, indent=2)
     validation.validate(out, parse_schema(schema.to_json()))
+    raise
 
 writer.close()
-- 
2.43.0


From 9ef22dcbbfc0cc766b172ac65c96ab20f2877898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 05/11] fix: stop the load when the upload failed

Objects of an earlier upload were loaded in place of the ones that did not
arrive, and counted as loaded.
---
 scripts/mps-load-avro-bq.sh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/scripts/mps-load-avro-bq.sh b/scripts/mps-load-avro-bq.sh
index a172c61..d03d1db 100755
--- a/scripts/mps-load-avro-bq.sh
+++ b/scripts/mps-load-avro-bq.sh
@@ -5,7 +5,10 @@ cd "$(dirname "$0")/.." || exit
 project_id=$(gcloud config get-value project)
 dataset_id="test_avro"
 
-gsutil -m cp avro-data/* gs://${project_id}/data
+if ! gsutil -m cp avro-data/* gs://${project_id}/data; then
+    echo "failed to upload avro-data"
+    exit 1
+fi
 bq rm -rf $dataset_id
 bq mk $dataset_id
 
-- 
2.43.0


From 449bb5783a25e5b2b2443a3cd7ae4c4ac26f1eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 06/11] fix: skip a load only for its own table

With SKIP_EXISTING a table whose name contains the wanted one was taken for
it (z__main_v1 within a_z__main_v1 or z__main_v10), and the data was left out.
---
 scripts/mps-load-avro-bq.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mps-load-avro-bq.sh b/scripts/mps-load-avro-bq.sh
index d03d1db..a57b3e7 100755
--- a/scripts/mps-load-avro-bq.sh
+++ b/scripts/mps-load-avro-bq.sh
@@ -24,7 +24,7 @@ for document in $(ls avro-data | sed 's/.avro//'); do
     doctype=$(echo $bq_document | cut -d. -f2)
     docver=$(echo $bq_document | cut -d. -f3)
 
-    table_exists=$(bq ls ${dataset_id} | grep ${namespace}__${doctype}_v${docver})
+    table_exists=$(bq ls ${dataset_id} | grep -w ${namespace}__${doctype}_v${docver})
 
     if [[ ! -z ${SKIP_EXISTING+x} ]] && [[ ! -z ${table_exists} ]]; then
         echo "skipping bq load for ${document}"
-- 
2.43.0


From fb5473b4920639068f9418a85bf8d90b32c18f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:15 +0000
Subject: [PATCH 07/11] fix: strip only the file extension from the name of a
 data set

avro.main.1 and org-avro.main.1 were taken apart in the wrong place.
---
 scripts/mps-load-avro-bq.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mps-load-avro-bq.sh b/scripts/mps-load-avro-bq.sh
index a57b3e7..3d5e5e0 100755
--- a/scripts/mps-load-avro-bq.sh
+++ b/scripts/mps-load-avro-bq.sh
@@ -17,7 +17,7 @@ error=0
 skip=0
 
 trap "exit" INT
-for document in $(ls avro-data | sed 's/.avro//'); do
+for document in $(ls avro-data | sed 's/\.avro$//'); do
     # downcase hyphens to underscores before generating names
     bq_document=$(echo $document | sed 's/-/_/g')
     namespace=$(echo $bq_document | cut -d. -f1)
-- 
2.43.0


From 2f50eaa357fc809dce62ba06d18382d5960b2ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:39 +0000
Subject: [PATCH 08/11] fix: strip only the file extension from the name of a
 document set

ndjson.main.1 was taken apart in the wrong place and reported as failed.
---
 scripts/mps-generate-avro-data.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/mps-generate-avro-data.sh b/scripts/mps-generate-avro-data.sh
index cce741a..4a0c8fa 100755
--- a/scripts/mps-generate-avro-data.sh
+++ b/scripts/mps-generate-avro-data.sh
@@ -2,7 +2,7 @@
 
 cd "$(dirname "$0")/.." || exit
 
-documents=$(ls data | sed 's/.ndjson//')
+documents=$(ls data | sed 's/\.ndjson$//')
 
 total=0
 failed=0
-- 
2.43.0


From c8d04d829d5d527edeaf2d1014e615d5d563c92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 09/11] fix: stop when the schemas could not be downloaded or
 unpacked

The script went on with whatever was there and ended with the status of
removing the archive, so a failed download looked like a success.
---
 scripts/mps-download-schemas.sh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/mps-download-schemas.sh b/scripts/mps-download-schemas.sh
index 5c3fde1..b75383e 100755
--- a/scripts/mps-download-schemas.sh
+++ b/scripts/mps-download-schemas.sh
@@ -2,6 +2,7 @@
 # Download production mozilla-pipeline-schemas into a schema folder
 
 cd "$(dirname "$0")/.." || exit
+set -e
 curl -o schemas.tar.gz -L https://github.com/mozilla-services/mozilla-pipeline-schemas/archive/master.tar.gz
 tar --strip-components=1 -xvf schemas.tar.gz mozilla-pipeline-schemas-master/schemas
 rm schemas.tar.gz
-- 
2.43.0


From f2c3cf11fe8f647ff539e490246a82f158f8e4c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 10/11] fix: list all the pages of a sample

list_objects answers with at most a thousand objects; the parts beyond
them were left out.
---
 scripts/mps-download-sampled-data.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/mps-download-sampled-data.py b/scripts/mps-download-sampled-data.py
index 622812f..6c4c1bd 100755
--- a/scripts/mps-download-sampled-data.py
+++ b/scripts/mps-download-sampled-data.py
@@ -57,8 +57,10 @@ if __name__ == "__main__":
     prefix = "sanitized-landfill-sample/v3/submission_date_s3=20190310"
     s3 = boto3.client("s3")
 
-    objs = s3.list_objects(Bucket=bucket, Prefix=prefix)
-    keys = [obj["Key"] for obj in objs["Contents"] if obj["Key"].endswith(".json")]
+    # a page holds at most a thousand objects
+    pages = s3.get_paginator("list_objects").paginate(Bucket=bucket, Prefix=prefix)
+    objs = [obj for page in pages for obj in page["Contents"]]
+    keys = [obj["Key"] for obj in objs if obj["Key"].endswith(".json")]
 
     for key in keys:
         schema_name = get_schema_name(key)
-- 
2.43.0


From 8ad6303c463159c8a162cc2d6d678247789013ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:46 +0000
Subject: [PATCH 11/11] fix: keep every part of a sampled data set

Each part replaced the file that the part before it had written.
---
 scripts/mps-download-sampled-data.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/scripts/mps-download-sampled-data.py b/scripts/mps-download-sampled-data.py
index 6c4c1bd..4c1f908 100755
--- a/scripts/mps-download-sampled-data.py
+++ b/scripts/mps-download-sampled-data.py
@@ -62,6 +62,7 @@ if __name__ == "__main__":
     objs = [obj for page in pages for obj in page["Contents"]]
     keys = [obj["Key"] for obj in objs if obj["Key"].endswith(".json")]
 
+    written = set()
     for key in keys:
         schema_name = get_schema_name(key)
         if not schema_name in schemas:
@@ -73,7 +74,10 @@ if __name__ == "__main__":
         )
         lines = data.split("\n")
 
-        with open(f"{output_folder}/{schema_name}.ndjson", "w") as fp:
+        # the first part replaces the file of an earlier run
+        mode = "a" if schema_name in written else "w"
+        written.add(schema_name)
+        with open(f"{output_folder}/{schema_name}.ndjson", mode) as fp:
             errors = 0
             for line in lines:
                 # each of the lines contains metadata with a content field
-- 
2.43.0

