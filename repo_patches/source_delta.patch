From 78ea3e4d4a50858fb396ffe63920fb17a05d11a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:54 +0000
Subject: [PATCH 01/22] fix: reduce Williamson sequences with their own
 equivalence operations only

---
 rust/src/find/find_unique.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index 107f68b..27fddab 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -190,6 +190,9 @@ pub fn reduce_to_canonical_reps(sequences : &Vec<QuadSeq>, seqtype : SequenceTyp
     let symmetries;
     if matches!(seqtype, SequenceType::QuaternionType) {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_dual_half_shift]);
+    } else if matches!(seqtype, SequenceType::Williamson) {
+        // Uniform shifts do not preserve symmetry, so they are not an equivalence operation on Williamson sequences
+        symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_half_shift]);
     } else {
         symmetries = generate_symmetry_group(sequences[0].size(), seqtype, &vec![equivalent_automorphism, equivalent_even_alternated_negation, equivalent_uniform_shift, equivalent_uniform_half_shift]);
     }
-- 
2.43.0


From f9bd4e563070bfe8b6d56cc675ee4225ed6d7ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:56 +0000
Subject: [PATCH 02/22] fix: write result files completely (write_all) so short
 writes are not silent

---
 rust/src/find/find_with_rowsum.rs        |  4 ++--
 rust/src/find/find_write.rs              |  8 ++++----
 rust/src/main.rs                         | 14 +++++++-------
 rust/src/sequences/matrix_equivalence.rs |  2 +-
 4 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/rust/src/find/find_with_rowsum.rs b/rust/src/find/find_with_rowsum.rs
index 754f541..318612c 100644
--- a/rust/src/find/find_with_rowsum.rs
+++ b/rust/src/find/find_with_rowsum.rs
@@ -84,8 +84,8 @@ pub fn find(p : usize, seqtype : SequenceType) {
                 if equations != "" {
                     let mut f = File::create(path).expect("Invalid file ?");
                     let comment = generate_comment(seq1, &tag1, seq2, &tag2, &rs);
-                    f.write(comment.as_bytes()).expect("Error when writing in the file");
-                    f.write(equations.as_bytes()).expect("Error when writing in the file");
+                    f.write_all(comment.as_bytes()).expect("Error when writing in the file");
+                    f.write_all(equations.as_bytes()).expect("Error when writing in the file");
                     count +=1;
                 }
 
diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 933e241..f1f029b 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -25,7 +25,7 @@ pub fn write_rowsums(p : usize, seqtype : SequenceType) {
 
     let s = rs.iter().map(|e| quad_to_string(*e)).fold("".to_string(), |a,b| a + &b);
 
-    f.write(s.as_bytes()).expect("Error writing file");
+    f.write_all(s.as_bytes()).expect("Error writing file");
 }
 
 
@@ -89,7 +89,7 @@ pub fn write_sequences(sequences : &Vec<Vec<i8>>, tag : &SequenceTag, folder_pat
     let mut f = File::create(path).expect("Invalid file ?");
 
     for seq in sequences {
-        f.write((sequence_to_string(seq) + &"\n").as_bytes()).expect("Error when writing in the file");
+        f.write_all((sequence_to_string(seq) + &"\n").as_bytes()).expect("Error when writing in the file");
     }
 }
 
@@ -229,7 +229,7 @@ pub fn write_seq_pairs(sequences : (&Vec<Vec<i8>>, &Vec<Vec<i8>>), tags : (&Sequ
         counter += 1;
 
         if counter % 1000 == 0 {
-            f.write(buffer.as_bytes()).expect("Error when writing in the file");
+            f.write_all(buffer.as_bytes()).expect("Error when writing in the file");
             buffer = "".to_string();
         }
 
@@ -245,7 +245,7 @@ pub fn write_seq_pairs(sequences : (&Vec<Vec<i8>>, &Vec<Vec<i8>>), tags : (&Sequ
         println!("WARNING (pair {}{}): CPSD values approximate half-integer with error as small as {}", tags.0.to_string(), tags.1.to_string(), min_half_int_difference_cpsd);
     }
     
-    f.write(buffer.as_bytes()).expect("Error when writing in the file");
+    f.write_all(buffer.as_bytes()).expect("Error when writing in the file");
 
     counter
 }
diff --git a/rust/src/main.rs b/rust/src/main.rs
index 6757cdf..0aeb0d0 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -86,7 +86,7 @@ fn find_unique_williamson_type_of_size(i : usize){
     let path = Path::new(s);
     let mut f = File::create(path).expect("Invalid file ?");
     
-    f.write(result.as_bytes()).expect("Error when writing in the file");
+    f.write_all(result.as_bytes()).expect("Error when writing in the file");
 }
 
 fn find_write_quad_seq(i : usize, seqtype : SequenceType){
@@ -117,8 +117,8 @@ fn find_write_quad_seq(i : usize, seqtype : SequenceType){
     let seq_res_string = result.iter().map(|w| w.to_qs().to_string_raw() + &"\n").fold("".to_string(), |s, t| s + &t);
     let qseq_res_string = result.iter().map(|w| w.to_string() + &"\n").fold("".to_string(), |s, t| s + &t);
 
-    f_seq.write(seq_res_string.as_bytes()).expect("Error when writing in the file");
-    f_qseq.write(qseq_res_string.as_bytes()).expect("Error when writing in the file");
+    f_seq.write_all(seq_res_string.as_bytes()).expect("Error when writing in the file");
+    f_qseq.write_all(qseq_res_string.as_bytes()).expect("Error when writing in the file");
 
     // When doing a Williamson-type enumeration, additionally generate an enumeratation up to QT equivalences for the later Hadamard equivalence check
     if matches!(seqtype, SequenceType::WilliamsonType) {
@@ -163,8 +163,8 @@ fn find_write_quad_seq(i : usize, seqtype : SequenceType){
         let mut f_qseq = File::create(path_qseq).expect("Invalid file ?");
         let seq_res_string = qt_reduced.iter().map(|w| w.to_qs().to_string_raw() + &"\n").fold("".to_string(), |s, t| s + &t);
         let qseq_res_string = qt_reduced.iter().map(|w| w.to_string() + &"\n").fold("".to_string(), |s, t| s + &t);
-        f_seq.write(seq_res_string.as_bytes()).expect("Error when writing in the file");
-        f_qseq.write(qseq_res_string.as_bytes()).expect("Error when writing in the file");
+        f_seq.write_all(seq_res_string.as_bytes()).expect("Error when writing in the file");
+        f_qseq.write_all(qseq_res_string.as_bytes()).expect("Error when writing in the file");
     }
 }
 
@@ -202,7 +202,7 @@ fn convert_qs_to_matrices(seqtype : SequenceType, len : usize) {
                 result += &"\n";
             }
         }
-        f.write(result.as_bytes()).expect("Error when writing in the file");
+        f.write_all(result.as_bytes()).expect("Error when writing in the file");
 
         println!("converted {num_seq} sequences of size {len}. {num_non_commutative} contained non-commuting elements.");
     }
@@ -233,7 +233,7 @@ fn qhm_write_all(seqtype : SequenceType, len : usize) {
     for seq in &equ {
         let qhm = QHM::from_pqs(seq.to_qs()).dephased();
         //assert!(qhm.verify());
-        fout.write((qhm.to_string() + &"\n\n".to_string()).as_bytes()).expect("Error when trying to write to file '{path_out}'");
+        fout.write_all((qhm.to_string() + &"\n\n".to_string()).as_bytes()).expect("Error when trying to write to file '{path_out}'");
     }
 }
 
diff --git a/rust/src/sequences/matrix_equivalence.rs b/rust/src/sequences/matrix_equivalence.rs
index 2af4c58..a13fed4 100644
--- a/rust/src/sequences/matrix_equivalence.rs
+++ b/rust/src/sequences/matrix_equivalence.rs
@@ -118,6 +118,6 @@ pub fn hadamard_equivalence_from_file(pathname : String, seqtype : SequenceType)
         result_string += &"\n";
     }
 
-    result_file.write(result_string.as_bytes()).expect("Error when writing in the file");
+    result_file.write_all(result_string.as_bytes()).expect("Error when writing in the file");
 
 }
-- 
2.43.0


From ebb9380da17795e528f8cb516a6a02b4fa41e596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 03/22] fix: make convert qhm fail when the result file cannot
 be read

---
 rust/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rust/src/main.rs b/rust/src/main.rs
index 0aeb0d0..42e6987 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -205,6 +205,8 @@ fn convert_qs_to_matrices(seqtype : SequenceType, len : usize) {
         f.write_all(result.as_bytes()).expect("Error when writing in the file");
 
         println!("converted {num_seq} sequences of size {len}. {num_non_commutative} contained non-commuting elements.");
+    } else {
+        panic!("Error reading file. Make sure sequences have already been generated for this length");
     }
 }
 
-- 
2.43.0


From 11bc7922f54fc921131a671b143f05925d6daee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:20 +0000
Subject: [PATCH 04/22] fix: create: name the .pair files as the pair
 generation does

---
 rust/src/find/find_write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index f1f029b..c9fba58 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -348,8 +348,8 @@ pub fn create_rowsum_dirs(folder : String, p : usize, rs : (isize, isize, isize,
     println!("{}",folder_path);
     fs::create_dir_all(&folder_path).expect("Error when creating the dir");
 
-    let (_, indices) = sort(&rs); // we sort the rowsum in decreasing order, and we keep track of their original indices
-    let tags : Vec<SequenceTag> = indices.iter().map(|i| index_to_tag(*i)).collect(); // we convert the indices to their respective tags
+    // The .pair files must have the same names as those written by write_seq_pairs
+    let tags : Vec<SequenceTag> = vec![SequenceTag::W, SequenceTag::X, SequenceTag::Y, SequenceTag::Z];
 
     let path1 : String;
     let path2 : String;
-- 
2.43.0


From ccf626be5bd3f38af015aadfd4a32239f90cb47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 05/22] fix: HM::dephased must normalise the columns of the
 row-dephased matrix

---
 rust/src/sequences/matrices.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/sequences/matrices.rs b/rust/src/sequences/matrices.rs
index dc35232..7104669 100644
--- a/rust/src/sequences/matrices.rs
+++ b/rust/src/sequences/matrices.rs
@@ -357,7 +357,7 @@ impl HM {
         for inv_col in 0..self.size {
             for row in 0..self.size {
                 let col = self.size - 1 - inv_col;
-                new_mat[row][col] = self.matrix[row][0]*self.matrix[row][col];
+                new_mat[row][col] = new_mat[row][0]*new_mat[row][col];
             }
         }
 
-- 
2.43.0


From a46521e5634e967f4944337a884c00da0f06ec90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:38 +0000
Subject: [PATCH 06/22] fix: HMUO::tensor reports the order of the tensor
 product

---
 rust/src/sequences/mum.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/sequences/mum.rs b/rust/src/sequences/mum.rs
index 83c8070..bdfdfdb 100644
--- a/rust/src/sequences/mum.rs
+++ b/rust/src/sequences/mum.rs
@@ -240,7 +240,7 @@ impl HMUO {
 
 
     pub fn tensor(&self, other : &HMUO) -> HMUO {
-        HMUO {matrix_size : self.matrix_size + other.matrix_size, operator : self.operator.tensor(&other.operator)}
+        HMUO {matrix_size : self.matrix_size * other.matrix_size, operator : self.operator.tensor(&other.operator)}
     }
 
     pub fn to_string(&self) -> String {
-- 
2.43.0


From 14c66429c0bd54a6801a2b87ba7cc75ada61ceb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 07/22] fix: scripts: report the failure of a stage instead of
 carrying on

---
 rust/convert_hm.sh  |  8 ++++++++
 rust/convert_qhm.sh |  8 ++++++++
 rust/driver.sh      | 19 +++++++++++++++++++
 rust/join_pairs.sh  |  5 +++--
 rust/pairs.sh       | 14 ++++++++++++++
 rust/sortpairs.sh   |  5 +++++
 6 files changed, 57 insertions(+), 2 deletions(-)

diff --git a/rust/convert_hm.sh b/rust/convert_hm.sh
index ccd7fc6..16215e9 100755
--- a/rust/convert_hm.sh
+++ b/rust/convert_hm.sh
@@ -8,6 +8,9 @@ then
 	exit 0
 fi
 
+# A stage piped into tee must still report its own exit status
+set -o pipefail
+
 type=$1
 n=$2
 filename="./results/pairs/$type/find_$n/result.log"
@@ -15,6 +18,11 @@ filename="./results/pairs/$type/find_$n/result.log"
 # sorting the files
 start2=`date +%s.%N`
 ./target/release/rust convert hm $type $n | tee -a $filename
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: convert hm exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 end2=`date +%s.%N`
 elapsed=$(echo "$end2 - $start2" | bc)
 printf "Converting to matrices up to Hadamard equivalence took %.2f seconds\n" $elapsed
diff --git a/rust/convert_qhm.sh b/rust/convert_qhm.sh
index 83c1e8d..1750c2f 100755
--- a/rust/convert_qhm.sh
+++ b/rust/convert_qhm.sh
@@ -8,6 +8,9 @@ then
 	exit 0
 fi
 
+# A stage piped into tee must still report its own exit status
+set -o pipefail
+
 type=$1
 n=$2
 filename="./results/pairs/$type/find_$n/result.log"
@@ -15,6 +18,11 @@ filename="./results/pairs/$type/find_$n/result.log"
 # sorting the files
 start2=`date +%s.%N`
 ./target/release/rust convert qhm $type $n | tee -a $filename
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: convert qhm exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 end2=`date +%s.%N`
 elapsed=$(echo "$end2 - $start2" | bc)
 printf "Converting to PQS to QHM took %.2f seconds\n" $elapsed | tee -a $filename
diff --git a/rust/driver.sh b/rust/driver.sh
index b68e9d4..805b140 100755
--- a/rust/driver.sh
+++ b/rust/driver.sh
@@ -25,6 +25,9 @@ then
 	exit 0
 fi
 
+# A stage piped into tee must still report its own exit status
+set -o pipefail
+
 type=$1
 n=$2
 
@@ -78,8 +81,14 @@ release_dir="./target/release/rust"
 if [ $use_slurm = false ]; then
 	# Cargo automatically checks if source files have changed before deciding whether to compile
 	cargo build --release
+	if [ $? -ne 0 ]
+	then
+		echo 'ERROR: compilation failed'
+		exit 1
+	fi
 elif [ ! -e $release_dir ]; then
 	echo "ERROR: Binary not found, compile with 'cargo build --release'"
+	exit 1
 fi
 
 filename="$foldername/result.log"
@@ -123,6 +132,11 @@ fi
 if [ $hadamard = true ]; then
 	start2=`date +%s.%N`
 	./target/release/rust convert hm $type $n | tee $filename -a
+	if [ $? -ne 0 ]
+	then
+		echo 'ERROR: convert hm exited unsuccessfully. See log for additional details'
+		exit 1
+	fi
 	end2=`date +%s.%N`
 	elapsed=$(echo "$end2 - $start2" | bc)
 	printf "Converting to matrices up to Hadamard equivalence took %.2f seconds\n" $elapsed | tee $filename -a
@@ -134,6 +148,11 @@ fi
 
 echo "Converting PQS to QHM ..." | tee $filename -a
 ./convert_qhm.sh $type $n
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: convert qhm exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 
 end=`date +%s.%N`
 elapsed=$(echo "$end - $start" | bc)
diff --git a/rust/join_pairs.sh b/rust/join_pairs.sh
index b197c72..2757beb 100755
--- a/rust/join_pairs.sh
+++ b/rust/join_pairs.sh
@@ -19,8 +19,9 @@ filename="$foldername/result.log"
 # sorting the files
 start2=`date +%s`
 ./target/release/rust join $type $n &>> $filename
+status=$?
 end2=`date +%s`
-if [[ $? -eq 0 ]]; then
+if [[ $status -eq 0 ]]; then
     echo -e "Joining the files together took $((end2 - start2)) seconds. \n\n" >> "./results/pairs/$type/find_$n/result.log"
 fi
-
+exit $status
diff --git a/rust/pairs.sh b/rust/pairs.sh
index 156cba3..fd3091b 100755
--- a/rust/pairs.sh
+++ b/rust/pairs.sh
@@ -12,6 +12,9 @@ then
 	exit 0
 fi
 
+# A stage piped into tee must still report its own exit status
+set -o pipefail
+
 type=$1
 n=$2
 
@@ -64,8 +67,14 @@ release_dir="./target/release/rust"
 if [ $use_slurm = false ]; then
 	# Cargo automatically checks if source files have changed before deciding whether to compile
 	cargo build --release
+	if [ $? -ne 0 ]
+	then
+		echo 'ERROR: compilation failed'
+		exit 1
+	fi
 elif [ ! -e $release_dir ]; then
 	echo "ERROR: Binary not found, compile with 'cargo build --release'"
+	exit 1
 fi
 
 filename="$foldername/result.log"
@@ -79,6 +88,11 @@ fi
 # Call rust code
 start=`date +%s`
 ./target/release/rust pairs $type $n $match_option $rowsum_pairing | tee $filename
+if [ $? -ne 0 ]
+then
+	echo 'ERROR: pairs exited unsuccessfully. See log for additional details'
+	exit 1
+fi
 end=`date +%s`
 echo Generating the .pair files took `expr $end - $start` seconds. 
 echo -e Generating the .pair files took `expr $end - $start` seconds. "\n \n" >> $filename
diff --git a/rust/sortpairs.sh b/rust/sortpairs.sh
index b12c1e0..53539aa 100755
--- a/rust/sortpairs.sh
+++ b/rust/sortpairs.sh
@@ -36,6 +36,7 @@ done
 
 export LC_ALL=C
 
+failed=0
 start=`date +%s.%N`
 for dirname in results/pairs/$type/find_$n/*;
 do
@@ -56,6 +57,9 @@ do
 			# If sort was successful, remove .pair files
 			if [ $status -eq 0 ]; then
 				rm $filename
+			else
+				echo "ERROR: sorting $filename exited unsuccessfully"
+				failed=1
 			fi
 		done
 	fi
@@ -64,3 +68,4 @@ done
 end=`date +%s.%N`
 elapsed=$(echo "$end - $start" | bc)
 printf "Total time to sort: %.2f seconds.\n\n" $elapsed | tee $results -a
+exit $failed
-- 
2.43.0


From ed4ac5aa9244a30a404a228ec38cd6211b4dc2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 08/22] fix: scripts: reject unknown flags

---
 rust/driver.sh    | 2 +-
 rust/pairs.sh     | 2 +-
 rust/sortpairs.sh | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/rust/driver.sh b/rust/driver.sh
index 805b140..094cc93 100755
--- a/rust/driver.sh
+++ b/rust/driver.sh
@@ -62,7 +62,7 @@ while getopts "chsdp:" flag; do
 		c)
 		match_option="correlation"
 		;;
-		/?)
+		\?)
 		echo "Invalid argument(s) passed. Exiting."
 		exit 1
 		;;
diff --git a/rust/pairs.sh b/rust/pairs.sh
index fd3091b..12a4b9c 100755
--- a/rust/pairs.sh
+++ b/rust/pairs.sh
@@ -47,7 +47,7 @@ while getopts "cdsp:" flag; do
 		c)
 		match_option="correlation"
 		;;
-		/?)
+		\?)
 		echo "Invalid argument(s) passed. Exiting."
 		exit 1
 		;;
diff --git a/rust/sortpairs.sh b/rust/sortpairs.sh
index 53539aa..5fe702a 100755
--- a/rust/sortpairs.sh
+++ b/rust/sortpairs.sh
@@ -27,7 +27,7 @@ while getopts "s" flag; do
 		s)
 		use_slurm=true
 		;;
-		/?)
+		\?)
 		echo "Invalid argument(s) passed. Exiting."
 		exit 1
 		;;
-- 
2.43.0


From 2ab66b94f0d8b9a39fd81089b97fcf60cc3bf262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 09/22] fix: sortpairs: skip directories without .pair files

---
 rust/sortpairs.sh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/sortpairs.sh b/rust/sortpairs.sh
index 5fe702a..9abab7b 100755
--- a/rust/sortpairs.sh
+++ b/rust/sortpairs.sh
@@ -44,6 +44,9 @@ do
 	then
 		for filename in $dirname/*.pair;
 		do
+			# Nothing to sort in this directory
+			[ -e "$filename" ] || continue
+
 			# For consistency use a single core to sort, even when more cores are available
 			echo "Sorting file $filename ..." | tee $results -a
 			if [ "$use_slurm" = true ]; then
-- 
2.43.0


From 93008377f77200ae5615ca96369040a539307ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:44 +0000
Subject: [PATCH 10/22] Add a monitoring hook, compiled only with the feature
 verif

---
 rust/src/main.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/rust/src/main.rs b/rust/src/main.rs
index 42e6987..01232d1 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -1,4 +1,5 @@
 #![allow(dead_code)]
+#![allow(unexpected_cfgs)]
 #[macro_use]
 extern crate lazy_static;
 
@@ -19,6 +20,10 @@ use crate::sequences::equivalence::generate_equivalent_quad_seqs;
 use crate::sequences::{williamson::*, sequence::*, symmetries::*, equivalence::{negated, half_shift}};
 use sequences::matrix_equivalence::hadamard_equivalence_from_file;
 
+// Monitoring hook: a harness crate that compiles this file with its feature `verif` supplies the code of `verif_main`
+#[cfg(feature = "verif")]
+include!(concat!(env!("VERIF_PROBE_DIR"), "/entry.rs"));
+
 fn find_pqs(symmetry : Option<Symmetry>){
     for i in 1..18{
         find_pqs_of_type(i, &symmetry);
@@ -335,6 +340,9 @@ fn str_to_isize(source : &str) -> isize {
 }
 
 fn main() {
+    #[cfg(feature = "verif")]
+    if verif_main() { return; }
+
     let args : Vec<String> = std::env::args().collect();
 
     if args.len() == 1 {
-- 
2.43.0


From 5da3ace5c2ff7d84eb5d08b2485dfae04136e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:34 +0000
Subject: [PATCH 11/22] fix: do not skip lines that cannot be read from
 sequence files

---
 rust/src/find/find_write.rs |  5 ++---
 rust/src/main.rs            | 19 +++++++++----------
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index c9fba58..487b6c0 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -586,9 +586,8 @@ pub fn file_to_sequences(filename : &String) -> Vec<Vec<i8>> {
     let mut seq = vec![];
 
     for line in read_lines(filename).expect("Error when reading file") {
-        if let Ok(s) = line {
-            seq.push(string_to_sequence(&s));
-        }
+        let s = line.expect("Error when reading file");
+        seq.push(string_to_sequence(&s));
     }
 
     seq
diff --git a/rust/src/main.rs b/rust/src/main.rs
index 01232d1..8b8f4e8 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -193,19 +193,18 @@ fn convert_qs_to_matrices(seqtype : SequenceType, len : usize) {
 
         let mut result = "".to_string();
         for line in lines {
-            if let Ok(pqs) = line {
-                num_seq += 1;
+            let pqs = line.expect("Error reading line");
+            num_seq += 1;
 
-                let mut qhm = QHM::from_pqs(QS::from_str(&pqs));
-                qhm.dephase();
+            let mut qhm = QHM::from_pqs(QS::from_str(&pqs));
+            qhm.dephase();
 
-                if qhm.contains_non_commuting_elements() {
-                    num_non_commutative += 1;
-                }
-
-                result += &qhm.to_string();
-                result += &"\n";
+            if qhm.contains_non_commuting_elements() {
+                num_non_commutative += 1;
             }
+
+            result += &qhm.to_string();
+            result += &"\n";
         }
         f.write_all(result.as_bytes()).expect("Error when writing in the file");
 
-- 
2.43.0


From b8676b0d2bde9b52a93157a3ddad9681e0af662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 12/22] fix: reduce_to_equivalence_set_dif must keep one
 sequence per class

---
 rust/src/find/find_unique.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/src/find/find_unique.rs b/rust/src/find/find_unique.rs
index 27fddab..8f1d915 100644
--- a/rust/src/find/find_unique.rs
+++ b/rust/src/find/find_unique.rs
@@ -127,6 +127,9 @@ pub fn reduce_to_equivalence_set_dif(sequences : &Vec<QuadSeq>, seqtype : Sequen
     let symmetry_group = generate_symmetry_group(sequences[0].size(), seqtype, equivalences);
     
     for seq in sequences {
+        // A sequence already removed is represented by the equivalent sequence that removed it
+        if !res.contains(seq) {continue;}
+
         let mut new_class = generate_equivalence_class_fast(seq, &symmetry_group);
         new_class.remove(seq);
 
-- 
2.43.0


From 8942b5c5cbbc55a3dad5ef1527711b9f07073f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:20 +0000
Subject: [PATCH 13/22] fix: a new sequence with symmetry IV must have that
 symmetry

---
 rust/src/sequences/sequence.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/rust/src/sequences/sequence.rs b/rust/src/sequences/sequence.rs
index 29e8e9b..05c5619 100644
--- a/rust/src/sequences/sequence.rs
+++ b/rust/src/sequences/sequence.rs
@@ -42,11 +42,16 @@ pub struct QS {
 impl QS{
 
     pub fn new(size: usize, symmetry : Option<Symmetry>) -> QS {
-        QS {
+        let mut qs = QS {
             values : vec![Q1.clone(); size as usize],
             size,
             symmetry
+        };
+        // The searches keep the first entry, so its image under symmetry IV must be set here
+        if matches!(qs.symmetry, Some(Symmetry::IV)) && size > 1 {
+            qs.set_value(Q1.clone(), 0);
         }
+        qs
     }
 
     pub fn from_str(s : &String) -> QS {
-- 
2.43.0


From 1b1d9ee8be12d197b47fd87442ebebf2172ca6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:35 +0000
Subject: [PATCH 14/22] fix: keep pairs that attain the PSD bound exactly

---
 rust/src/sequences/fourier.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rust/src/sequences/fourier.rs b/rust/src/sequences/fourier.rs
index a9d35d0..0b8ef8f 100644
--- a/rust/src/sequences/fourier.rs
+++ b/rust/src/sequences/fourier.rs
@@ -96,6 +96,9 @@ pub struct SequencePairData<'a> {
 pub fn iter_over_enumerate_filtered_couples_psds<'a>(sequences1: &'a Vec<Vec<i8>>, sequences2: &'a Vec<Vec<i8>>, bound: f64,) -> impl Iterator<Item = SequencePairData<'a>> {
     let couples = iproduct!(sequences1.iter().enumerate(), sequences2.iter().enumerate());
 
+    // A pair may attain the bound exactly, in which case rounding errors must not exclude it
+    let bound = bound + f64::EPSILON.sqrt();
+
     couples.filter_map(move |(seq_enum1, seq_enum2)| {
         let dft1 = dft_sequence(seq_enum1.1);
         let dft2 = dft_sequence(seq_enum2.1);
-- 
2.43.0


From baf751d9258a3d44c4c2836bbf19fa7553bb1843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:45 +0000
Subject: [PATCH 15/22] fix: totals of the summary do not subtract one per
 length without a count

---
 rust/collect_results.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rust/collect_results.py b/rust/collect_results.py
index 15ae3f7..804cc48 100755
--- a/rust/collect_results.py
+++ b/rust/collect_results.py
@@ -80,6 +80,10 @@ def count_pairs(seqtype, n):
                     return int(match.group(1))
     return int(os.popen('./countpairs.sh ' + seqtype + ' ' + str(n)).read())
 
+# Total over the lengths for which a count is known (-1 marks those without one)
+def total(counts):
+    return sum(count for count in counts if count != -1)
+
 # Create table from data. Each arg other than n should be a list of length n
 def create_table(start, end, Q_equ, W_equ, M_equ, time, qt_equiv_time, hm_equiv_time, pairs, disk, latex, seqtype):
     if latex is False:
@@ -180,9 +184,9 @@ for i, n in enumerate(range(int(start), int(end)+1)):
 
 if verbose:
     if seqtype == "wts":
-        print(f"A total of {sum(WTS_reduced)} sets of QT sequences found up to Williamson-type equivalence")
-    print(f"A total of {sum(QTS_reduced)} sets of QT sequences found up to QT equivalence")
-    print(f"A total of {sum(QTS_hadamard_reduced)} sets of QT sequences found up to Hadamard equivalence")
+        print(f"A total of {total(WTS_reduced)} sets of QT sequences found up to Williamson-type equivalence")
+    print(f"A total of {total(QTS_reduced)} sets of QT sequences found up to QT equivalence")
+    print(f"A total of {total(QTS_hadamard_reduced)} sets of QT sequences found up to Hadamard equivalence")
     print("")
 
 create_table(int(start), int(end), QTS_reduced, WTS_reduced, QTS_hadamard_reduced, runtime, qt_equivalence_time, hm_equivalence_time, pairs, disk_usage, latex, seqtype)
-- 
2.43.0


From 430245333ba352197f79336a0907fd619faf2eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 16/22] fix: keep the first couple of every entry of the
 matching table

---
 rust/src/sequences/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rust/src/sequences/matching.rs b/rust/src/sequences/matching.rs
index c8e3c2a..e026abe 100644
--- a/rust/src/sequences/matching.rs
+++ b/rust/src/sequences/matching.rs
@@ -271,7 +271,7 @@ pub fn generate_matching_table<'a, 'b>(sequences1 : &'a Vec<Vec<i8>>, sequences2
 
         match match_table.get_mut(&match_data) {
             Some(list) => {list.push((seq1, seq2))}
-            None => {match_table.insert(match_data, vec![]);}
+            None => {match_table.insert(match_data, vec![(seq1, seq2)]);}
         }
     }
 
-- 
2.43.0


From 52758a63ed897993f02516e15a44aa0aabb16341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 17/22] fix: all dft filters keep what attains the bound
 exactly

---
 rust/src/sequences/fourier.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/rust/src/sequences/fourier.rs b/rust/src/sequences/fourier.rs
index 0b8ef8f..eb9060d 100644
--- a/rust/src/sequences/fourier.rs
+++ b/rust/src/sequences/fourier.rs
@@ -44,7 +44,8 @@ pub fn inverse_dft(freq: &Vec<Complex<f64>>, n: usize) -> Vec<f64> {
 
 
 pub fn iter_over_filtered_dft<'a>(sequences : &'a Vec<Vec<i8>>, bound : f64) -> impl std::iter::Iterator<Item = &'a Vec<i8>> {
-    let bound_sqr = bound * bound;
+    // A sequence may attain the bound exactly, in which case rounding errors must not exclude it
+    let bound_sqr = bound * bound + f64::EPSILON.sqrt();
     sequences.iter()
         .filter(move |seq| {
             let dft = dft_sequence(seq);
@@ -58,6 +59,10 @@ pub fn iter_over_filtered_dft<'a>(sequences : &'a Vec<Vec<i8>>, bound : f64) ->
 
 pub fn iter_over_filtered_couples<'a>(sequences1 : &'a Vec<Vec<i8>>, sequences2 : &'a Vec<Vec<i8>>, bound : f64) -> impl std::iter::Iterator<Item = (&'a Vec<i8>, &'a Vec<i8>)> {
     let couples = iproduct!(sequences1, sequences2);
+
+    // A couple may attain the bound exactly, in which case rounding errors must not exclude it
+    let bound = bound + f64::EPSILON.sqrt();
+
     couples
         .filter(move |(seq1, seq2)| {
             let dft1 = dft_sequence(seq1);
@@ -73,6 +78,10 @@ pub fn iter_over_filtered_couples<'a>(sequences1 : &'a Vec<Vec<i8>>, sequences2
 
 pub fn iter_over_enumerate_filtered_couples<'a>(sequences1 : &'a Vec<Vec<i8>>, sequences2 : &'a Vec<Vec<i8>>, bound : f64) -> impl std::iter::Iterator<Item = ((usize, &'a Vec<i8>), (usize, &'a Vec<i8>))> {
     let couples = iproduct!(sequences1.iter().enumerate(), sequences2.iter().enumerate());      // Iterator for every unique combination of sequences
+
+    // A couple may attain the bound exactly, in which case rounding errors must not exclude it
+    let bound = bound + f64::EPSILON.sqrt();
+
     couples
         .filter(move |((_, seq1), (_, seq2))| {
             let dft1 = dft_sequence(seq1);
-- 
2.43.0


From bd005f5c1f77488cde8173ae28a585e7896c90cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:13 +0000
Subject: [PATCH 18/22] fix: equations wrap around to the first variable, not
 to a variable x0

---
 rust/src/sequences/equations.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rust/src/sequences/equations.rs b/rust/src/sequences/equations.rs
index 3b1cf88..821bf12 100644
--- a/rust/src/sequences/equations.rs
+++ b/rust/src/sequences/equations.rs
@@ -230,7 +230,7 @@ fn generate_equation_autocorrelation(size : usize, offset : usize, mut rightside
             result += "+";
         }
 
-        let index_offset = (index + offset) % size;
+        let index_offset = (index + offset - 1) % size + 1; // The variables are numbered from 1
         result += &("4 x".to_string() + &(index).to_string() + &" x" + &index_offset.to_string() + " ");
         result += &("-2 x".to_string() + &(index).to_string() + &" -2 x" + &index_offset.to_string() + " ");
 
@@ -293,7 +293,7 @@ fn equations_nonlinear_crosscorrelation(seq1 : &Vec<i8>, seq2 : &Vec<i8>, op_typ
 
 
 fn generator_left_minus(index : usize, offset : usize, size : usize) -> String {
-    let index_offset = (index + offset) % size;
+    let index_offset = (index + offset - 1) % size + 1; // The variables are numbered from 1
 
     let mut result = "".to_string();
     result += &("4 x".to_string() + &(index).to_string() + &" x" + &(index_offset + size).to_string() + " ");
@@ -306,7 +306,7 @@ fn generator_left_minus(index : usize, offset : usize, size : usize) -> String {
 }
 
 fn generator_right_minus(index : usize, offset : usize, size : usize) -> String {
-    let index_offset = (index + offset) % size;
+    let index_offset = (index + offset - 1) % size + 1; // The variables are numbered from 1
 
     let mut result = "".to_string();
     result += &("4 x".to_string() + &(index + size).to_string() + &" x" + &index_offset.to_string() + " ");
@@ -319,7 +319,7 @@ fn generator_right_minus(index : usize, offset : usize, size : usize) -> String
 }
 
 fn generator_plus(index : usize, offset : usize, size : usize) -> String {
-    let index_offset = (index + offset) % size;
+    let index_offset = (index + offset - 1) % size + 1; // The variables are numbered from 1
 
     let mut result = "".to_string();
     result += &("4 x".to_string() + &(index).to_string() + &" x" + &(index_offset + size).to_string() + " ");
-- 
2.43.0


From 8cd3ffed9e49b1c7258e64d35defc08d685e56e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:21 +0000
Subject: [PATCH 19/22] fix: equations contain the cross-correlation of the two
 given sequences

---
 rust/src/sequences/equations.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rust/src/sequences/equations.rs b/rust/src/sequences/equations.rs
index 821bf12..4d8a1f9 100644
--- a/rust/src/sequences/equations.rs
+++ b/rust/src/sequences/equations.rs
@@ -254,11 +254,11 @@ fn generate_equation_autocorrelation(size : usize, offset : usize, mut rightside
 
 
 fn op_minus(seqa : &Vec<i8>, seqb : &Vec<i8>, offset: usize) -> isize{
-    cross_correlation(seqa, seqb, offset) - cross_correlation(seqa, seqb, offset)
+    cross_correlation(seqa, seqb, offset) - cross_correlation(seqb, seqa, offset)
 }
 
 fn op_plus(seqa : &Vec<i8>, seqb : &Vec<i8>, offset: usize) -> isize{
-    cross_correlation(seqa, seqb, offset) + cross_correlation(seqa, seqb, offset)
+    cross_correlation(seqa, seqb, offset) + cross_correlation(seqb, seqa, offset)
 }
 
 
-- 
2.43.0


From a7a8d69e29d813460bca411a53e6bd6eba602006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 20/22] fix: pair_single fails for an unknown pairing or pair
 number instead of writing nothing and succeeding

---
 rust/src/find/find_write.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/rust/src/find/find_write.rs b/rust/src/find/find_write.rs
index 487b6c0..8549b33 100644
--- a/rust/src/find/find_write.rs
+++ b/rust/src/find/find_write.rs
@@ -296,10 +296,7 @@ pub fn write_pair_single_rowsum(folder : String, rs : (isize, isize, isize, isiz
     let pair_indices;
     match get_indices(pairing, pair) {
         Some(s) => {pair_indices = s},
-        None => {
-            println!("ERROR: get_indices() returned None");
-            return;
-        }
+        None => {panic!("Invalid pairing or pair number passed")}
     }
 
     let now = Instant::now();
-- 
2.43.0


From 27c16b6fb31fc958d1834c6b84d4ce6959d6ebba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:02 +0000
Subject: [PATCH 21/22] fix: an unrecognized command exits with an error status

---
 rust/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rust/src/main.rs b/rust/src/main.rs
index 8b8f4e8..f0d48ad 100644
--- a/rust/src/main.rs
+++ b/rust/src/main.rs
@@ -461,6 +461,9 @@ fn main() {
         }
 
 
-        _ => {println!("Unrecognized arg '{}'", args[1])}
+        _ => {
+            eprintln!("Unrecognized arg '{}'", args[1]);
+            std::process::exit(1);
+        }
     }
 }
-- 
2.43.0


From 4adf40a65aacb5a78dfdc86704354611dfdc93ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:26 +0000
Subject: [PATCH 22/22] fix: a stage or the driver fails when its log cannot be
 written completely

sortpairs.sh, join_pairs.sh and driver.sh ignored errors while appending to
result.log, and exited with status 0 leaving the log that
collect_results.py reads truncated.
---
 rust/driver.sh     | 8 ++++----
 rust/join_pairs.sh | 2 +-
 rust/sortpairs.sh  | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/rust/driver.sh b/rust/driver.sh
index 094cc93..90a545a 100755
--- a/rust/driver.sh
+++ b/rust/driver.sh
@@ -139,14 +139,14 @@ if [ $hadamard = true ]; then
 	fi
 	end2=`date +%s.%N`
 	elapsed=$(echo "$end2 - $start2" | bc)
-	printf "Converting to matrices up to Hadamard equivalence took %.2f seconds\n" $elapsed | tee $filename -a
+	printf "Converting to matrices up to Hadamard equivalence took %.2f seconds\n" $elapsed | tee $filename -a || exit 1
 	
 	filename2="$foldername/result.mat"
 	matcount=$(wc -l < $filename2)
-	echo "$matcount matrices were found after converting up to Hadamard equivalence." | tee $filename -a
+	echo "$matcount matrices were found after converting up to Hadamard equivalence." | tee $filename -a || exit 1
 fi
 
-echo "Converting PQS to QHM ..." | tee $filename -a
+echo "Converting PQS to QHM ..." | tee $filename -a || exit 1
 ./convert_qhm.sh $type $n
 if [ $? -ne 0 ]
 then
@@ -156,6 +156,6 @@ fi
 
 end=`date +%s.%N`
 elapsed=$(echo "$end - $start" | bc)
-printf "\nTotal execution time was %.2f seconds.\n" $elapsed | tee $filename -a
+printf "\nTotal execution time was %.2f seconds.\n" $elapsed | tee $filename -a || exit 1
 
 echo "This output can also be found in $filename"
diff --git a/rust/join_pairs.sh b/rust/join_pairs.sh
index 2757beb..6557af2 100755
--- a/rust/join_pairs.sh
+++ b/rust/join_pairs.sh
@@ -22,6 +22,6 @@ start2=`date +%s`
 status=$?
 end2=`date +%s`
 if [[ $status -eq 0 ]]; then
-    echo -e "Joining the files together took $((end2 - start2)) seconds. \n\n" >> "./results/pairs/$type/find_$n/result.log"
+    echo -e "Joining the files together took $((end2 - start2)) seconds. \n\n" >> "./results/pairs/$type/find_$n/result.log" || status=1
 fi
 exit $status
diff --git a/rust/sortpairs.sh b/rust/sortpairs.sh
index 9abab7b..4d0ab19 100755
--- a/rust/sortpairs.sh
+++ b/rust/sortpairs.sh
@@ -48,7 +48,7 @@ do
 			[ -e "$filename" ] || continue
 
 			# For consistency use a single core to sort, even when more cores are available
-			echo "Sorting file $filename ..." | tee $results -a
+			echo "Sorting file $filename ..." | tee $results -a || failed=1
 			if [ "$use_slurm" = true ]; then
 				sort --parallel=1 -S 1G -T $SLURM_TMPDIR $filename > $filename.sorted
 				status=$?
@@ -70,5 +70,5 @@ done
 
 end=`date +%s.%N`
 elapsed=$(echo "$end - $start" | bc)
-printf "Total time to sort: %.2f seconds.\n\n" $elapsed | tee $results -a
+printf "Total time to sort: %.2f seconds.\n\n" $elapsed | tee $results -a || failed=1
 exit $failed
-- 
2.43.0

