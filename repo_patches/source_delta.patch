From 8e8c510bbc7ba7f2ce980f9f6c8e0ebcd4ae7c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 01/13] fix: close the window in which a worker thread misses
 its wake-up

The thread checked for work under data_mutex but waited on main_mutex, which
neither assign nor shutdown acquires.  A notification sent between the check
and the wait was lost: the block was never computed or join never returned.
---
 src/threaded/thread.cc | 38 +++++++++++++++-----------------------
 src/threaded/thread.hh |  1 -
 2 files changed, 15 insertions(+), 24 deletions(-)

diff --git a/src/threaded/thread.cc b/src/threaded/thread.cc
index 2431679..7e2dae6 100644
--- a/src/threaded/thread.cc
+++ b/src/threaded/thread.cc
@@ -54,34 +54,26 @@ main_thread(
     const shared_ptr<StoreFactoryInterface> store_factory
     )
 {
-  unique_lock<mutex> main_lock(thread->main_mutex);
-
   while ( true ) {
-    while ( true ) {
-      thread->data_mutex.lock();
-      bool shutting_down = thread->shutting_down;
-      bool blocks_empty = thread->blocks.empty();
-      thread->data_mutex.unlock();
-
-      if ( shutting_down )
-        return;
-
-      if ( blocks_empty )
-        thread->main_cond_var.wait(main_lock);
-      else
-        break;
-    }
-
-
     vuu_block block;
     shared_ptr<FqElementTable> fq_table;
     vector<shared_ptr<ReductionTable>> reduction_tables;
 
-    thread->data_mutex.lock();
-    tie(block, fq_table, reduction_tables) =
-      thread->blocks.front();
-    thread->blocks.pop_front();
-    thread->data_mutex.unlock();
+    {
+      // waiting releases the mutex that guards the state we wait for, so that
+      // neither assign nor shutdown can notify between our check and the wait
+      unique_lock<mutex> data_lock(thread->data_mutex);
+
+      while ( !thread->shutting_down && thread->blocks.empty() )
+        thread->main_cond_var.wait(data_lock);
+
+      if ( thread->shutting_down )
+        return;
+
+      tie(block, fq_table, reduction_tables) =
+        thread->blocks.front();
+      thread->blocks.pop_front();
+    }
 
     auto store = store_factory->create();
     for ( BlockIterator iter(block); !iter.is_end(); iter.step() ) {
diff --git a/src/threaded/thread.hh b/src/threaded/thread.hh
index 8f43297..79c63c7 100644
--- a/src/threaded/thread.hh
+++ b/src/threaded/thread.hh
@@ -81,7 +81,6 @@ class Thread :
     thread main_std_thread;
     bool shutting_down;
 
-    mutex main_mutex;
     mutex data_mutex;
     condition_variable main_cond_var;
 
-- 
2.43.0


From 7a0737fd6f784c2a4a23d892db23b0f5658601be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 02/13] fix: write the record of a store only after the store
 was written

A record was written even if writing the store had failed, so that the blocks
were skipped from then on though their results were lost.  A record that was
cut off by a crash missed blocks whose results the store contains, so that
these were counted twice.
---
 src/store/file_store.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 1bb4d4c..e6eb15c 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -69,8 +69,26 @@ save(
   tie(path_record, path_store) = this->new_filenames();
 
   // save record second as a witness to successful writing
-  fstream(path_store.native(),  ios_base::out) << get<1>(record_store);
-  fstream(path_record.native(), ios_base::out) << get<0>(record_store);
+  fstream store_stream(path_store.native(),  ios_base::out);
+  store_stream << get<1>(record_store);
+  store_stream.close();
+  if ( !store_stream ) {
+    cerr << "FileStore::save: could not write " << path_store << endl;
+    throw;
+  }
+
+  // the record has to appear as a whole, since it would otherwise miss blocks
+  // whose results the store contains
+  path path_record_part(path_record);
+  path_record_part += ".part";
+  fstream record_stream(path_record_part.native(), ios_base::out);
+  record_stream << get<0>(record_store);
+  record_stream.close();
+  if ( !record_stream ) {
+    cerr << "FileStore::save: could not write " << path_record_part << endl;
+    throw;
+  }
+  rename(path_record_part, path_record);
 }
 
 tuple<path, path>
-- 
2.43.0


From af5570698eeb3cfe41e73fc3f699815e6c9db569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 03/13] fix: let the merger fail if it can not read its inputs
 or write its output

It wrote the record even if writing the store had failed, and reported success.
---
 src/executables/merger.cc | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/executables/merger.cc b/src/executables/merger.cc
index f941620..170da77 100644
--- a/src/executables/merger.cc
+++ b/src/executables/merger.cc
@@ -152,13 +152,34 @@ merge(
       return 1;
     }
 
-    FileStore::extract( fstream(record_file.native(), ios_base::in), record );
-    store.extract( fstream(store_file.native(), ios_base::in) );
+    fstream record_stream(record_file.native(), ios_base::in);
+    fstream store_stream(store_file.native(), ios_base::in);
+    if ( !record_stream || !store_stream ) {
+      cerr << "could not read " << record_file.filename()
+           << " or the corresponding store file" << endl;
+      return 1;
+    }
+
+    FileStore::extract( record_stream, record );
+    store.extract( store_stream );
   }
 
   // save record second as a witness to successful writing
-  store.insert( fstream(store_output_file.native(), ios_base::out) );
-  FileStore::insert( fstream(record_output_file.native(), ios_base::out), record );
+  fstream store_stream(store_output_file.native(), ios_base::out);
+  store.insert( store_stream );
+  store_stream.close();
+  if ( !store_stream ) {
+    cerr << "could not write " << store_output_file << endl;
+    return 1;
+  }
+
+  fstream record_stream(record_output_file.native(), ios_base::out);
+  FileStore::insert( record_stream, record );
+  record_stream.close();
+  if ( !record_stream ) {
+    cerr << "could not write " << record_output_file << endl;
+    return 1;
+  }
 
   return 0;
 }
-- 
2.43.0


From 52c969365eae88bedfeca651280ced1a26ab2534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 04/13] fix: let copies of a count own their number

Counts were copied member by member, so that counts that do not fit into a
word shared, and repeatedly freed, one multiprecision integer.  Merging such
counts lost values.
---
 src/store/store_data.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/store/store_data.hh b/src/store/store_data.hh
index c65ab54..f772bf1 100644
--- a/src/store/store_data.hh
+++ b/src/store/store_data.hh
@@ -83,6 +83,17 @@ class Count
 
       ValueType(const string & str);
 
+      ValueType(const ValueType & value)
+      {
+        fmpz_init_set(this->counter, value.counter);
+      };
+
+      ValueType & operator=(const ValueType & value)
+      {
+        fmpz_set(this->counter, value.counter);
+        return *this;
+      };
+
       ~ValueType()
       {
         fmpz_clear(this->counter);
-- 
2.43.0


From 976d2560e3fe279301c8dbdea4fe95b79d47ecc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 05/13] fix: accept configurations that do not set
 WithMarkedPoint

The documented configuration does not set it, and led to an uncaught
YAML::InvalidNode.
---
 src/config/config_node.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/config/config_node.cc b/src/config/config_node.cc
index ff4f0e9..8273ced 100644
--- a/src/config/config_node.cc
+++ b/src/config/config_node.cc
@@ -92,7 +92,10 @@ namespace YAML
     config.prime_exponent = node["PrimeExponent"].as<int>();
   
     config.genus = node["Genus"].as<int>();
-    config.with_marked_point = node["WithMarkedPoint"].as<bool>();
+    if ( node["WithMarkedPoint"] )
+      config.with_marked_point = node["WithMarkedPoint"].as<bool>();
+    else
+      config.with_marked_point = false;
 
     if ( node["CountExponent"] )
       config.count_exponent = node["CountExponent"].as<int>();
-- 
2.43.0


From f50c54ca09fee824e10fd110234062cb3770f37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 06/13] fix: release the coefficients that the naive point
 counts allocate

---
 src/curve.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/curve.cc b/src/curve.cc
index 6d64e43..b748bd3 100644
--- a/src/curve.cc
+++ b/src/curve.cc
@@ -337,7 +337,7 @@ count_naive_nmod(
   // convert coefficient exponents to fq_nmod elements
   // fixme: in this conversion as in the other ones, we
   // silently assume that gen_q = gen_{q^l}^{q^l - q}
-  vector<const fq_nmod_struct*> poly_coefficients;
+  vector<fq_nmod_struct*> poly_coefficients;
   for ( unsigned int e : this->poly_coeff_exponents ) {
     auto a = new fq_nmod_struct;
     fq_nmod_init(a, fq_ctx);
@@ -408,6 +408,10 @@ count_naive_nmod(
 
 
   // clear flint variables
+  for ( auto c : poly_coefficients ) {
+    fq_nmod_clear(c, fq_ctx);
+    delete c;
+  }
   fq_nmod_clear(gen, fq_ctx);
   fq_nmod_clear(sub_gen, fq_ctx);
   fq_nmod_clear(x, fq_ctx);
@@ -460,7 +464,7 @@ count_naive_zech(
   // convert coefficient exponents to fq_zech elements
   // fixme: in this conversion as in the other ones, we
   // silently assume that gen_q = gen_{q^l}^{q^l - q}
-  vector<const fq_zech_struct*> poly_coefficients;
+  vector<fq_zech_struct*> poly_coefficients;
   for ( unsigned int e : this->poly_coeff_exponents ) {
     auto a = new fq_zech_struct;
     fq_zech_init(a, fq_ctx);
@@ -531,6 +535,10 @@ count_naive_zech(
 
 
   // clear flint variables
+  for ( auto c : poly_coefficients ) {
+    fq_zech_clear(c, fq_ctx);
+    delete c;
+  }
   fq_zech_clear(gen, fq_ctx);
   fq_zech_clear(sub_gen, fq_ctx);
   fq_zech_clear(x, fq_ctx);
-- 
2.43.0


From 7b1aad03495f4000c7f9310776c02021cd81ceb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 07/13] fix: do not accept zero as the generator of the
 multiplicative group

If there is no Conway polynomial, as for the prime 110059, the candidates are
random, and the powers of zero never return to one.
---
 src/fq_element_table.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fq_element_table.cc b/src/fq_element_table.cc
index 454b4db..a966bd2 100644
--- a/src/fq_element_table.cc
+++ b/src/fq_element_table.cc
@@ -60,7 +60,9 @@ FqElementTable(
   this->fq_elements.reserve(this->prime_power);
 
   for ( bool is_gen = false; !is_gen; fq_nmod_randtest(gen, state, this->fq_ctx)) {
-    is_gen = true;
+    is_gen = !fq_nmod_is_zero(gen, this->fq_ctx);
+    if ( !is_gen )
+      continue;
 
     this->fq_elements.clear();
 
-- 
2.43.0


From 8ce70f2177e6eea77a4a0a107859e71e8d8ca0ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 08/13] fix: reduce the coefficients of a single curve modulo
 the prime

Coefficients that are not reduced, as in the example of the README, were
taken for one.  For primes beyond 2^16 the table of exponents overflowed.
---
 src/single_curve_fp.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/single_curve_fp.cc b/src/single_curve_fp.cc
index 54fd531..37204bd 100644
--- a/src/single_curve_fp.cc
+++ b/src/single_curve_fp.cc
@@ -49,12 +49,12 @@ single_curve_fp(
   fp_conversion_map[0] = prime-1;
   for (unsigned int ex=0; ex<prime-1; ++ex) {
     fp_conversion_map[a] = ex;
-    a = (a*gen) % prime;
+    a = ((unsigned long int)a*gen) % prime;
   }
 
   vector<unsigned int> poly_coeff_exponents;
   for ( auto c : poly_coeffs )
-    poly_coeff_exponents.push_back(fp_conversion_map[c]);
+    poly_coeff_exponents.push_back(fp_conversion_map[c % prime]);
 
   shared_ptr<OpenCLInterface> opencl;
   if (  implementation == SingleCurveCountImplementationCPU
-- 
2.43.0


From 0340be9a6c618b75920988effddefe894764d043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 09/13] fix: let hycu-single refuse even characteristic and
 constant polynomials

It printed meaningless numbers in the first, and did not terminate in the
second case.
---
 src/executables/single.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/executables/single.cc b/src/executables/single.cc
index 0be6e42..5fa1e0c 100644
--- a/src/executables/single.cc
+++ b/src/executables/single.cc
@@ -103,6 +103,22 @@ main(
     cerr << "field size is not prime";
     return 1;
   }
+  if ( options_map["field_size"].as<unsigned int>() == 2 ) {
+    cerr << "field size must be odd" << endl;
+    return 1;
+  }
+
+  {
+    bool is_constant = true;
+    auto coefficients = options_map["coefficients"].as<vector<unsigned int>>();
+    for ( size_t ix=1; ix<coefficients.size(); ++ix )
+      if ( coefficients[ix] % options_map["field_size"].as<unsigned int>() != 0 )
+        is_constant = false;
+    if ( is_constant ) {
+      cerr << "polynomial is constant" << endl;
+      return 1;
+    }
+  }
 
   {
     int nmb_implementations = options_map.count("naivenmod") +  options_map.count("naivezech");
-- 
2.43.0


From 552fed679482e1e19a085794811ed8a008b34698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 10/13] fix: do not read an empty block from the end of a
 record

Every record that was read gained an empty block, which the merger wrote
into its output.
---
 src/store/file_store.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index e6eb15c..37b8082 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -141,8 +141,7 @@ extract(
 {
   vuu_block block;
 
-  stream.peek();
-  while ( !stream.eof() ) {
+  while ( stream.peek() != istream::traits_type::eof() ) {
     block.clear();
     FileStore::extract(stream, block);
     record.insert(block);
-- 
2.43.0


From 092ed9664812923a8ed258b5f66ad890f0397d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:12 +0000
Subject: [PATCH 11/13] fix: let hycu-mpi end all its processes if it refuses
 its input

The master returned while the other processes were waiting for its broadcast.
---
 src/executables/mpi.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/executables/mpi.cc b/src/executables/mpi.cc
index 437f77b..90d7107 100644
--- a/src/executables/mpi.cc
+++ b/src/executables/mpi.cc
@@ -53,10 +53,6 @@ main(
   mpi::environment mpi_environment(argc, argv, mpi::threading::funneled);
   auto mpi_world = make_shared<mpi::communicator>();
 
-  if ( mpi_world->rank() != 0 )
-    return main_mpi_worker(mpi_world);
-
-
   popt::options_description visible_options("Available options"), all_options;
   popt::positional_options_description positional_options;
 
@@ -84,7 +80,8 @@ main(
 
 
   if ( options_map.count("help") ) {
-    cerr << visible_options;
+    if ( mpi_world->rank() == 0 )
+      cerr << visible_options;
     return 0;
   }
 
@@ -99,9 +96,15 @@ main(
   }
 
 
+  // from here on workers wait for the master, so that it may not simply return
+  if ( mpi_world->rank() != 0 )
+    return main_mpi_worker(mpi_world);
+
+
   path output_path(options_map["output-path"].as<string>());
   if ( !( is_directory(output_path) || create_directories(output_path) ) ) {
     cerr << "could not create output path" << endl;
+    mpi_environment.abort(1);
     return 1;
   }
 
@@ -109,6 +112,7 @@ main(
   path config_file(options_map["config-file"].as<string>());
   if ( !is_regular_file(config_file) ) {
     cerr << "could not find configuration file or it is not a regular file" << endl;
+    mpi_environment.abort(1);
     return 1;
   }
   auto config_yaml = YAML::LoadFile(config_file.native());
@@ -123,6 +127,7 @@ main(
       store_type = StoreType::EC;
     else {
       cerr << "Invalid store type given" << endl;
+      mpi_environment.abort(1);
       return 1;
     }
   }
-- 
2.43.0


From 0adcc0a230b338af44d9e6f988c86daadffd83a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:34 +0000
Subject: [PATCH 12/13] fix: read unsigned bounds and ramification types back
 as unsigned

---
 src/store/curve_data.cc | 5 +++--
 src/store/file_store.cc | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/store/curve_data.cc b/src/store/curve_data.cc
index 1b2425a..cf31f5b 100644
--- a/src/store/curve_data.cc
+++ b/src/store/curve_data.cc
@@ -94,12 +94,13 @@ ValueType(
 {
   stringstream stream(str);
 
+  unsigned int read_uint;
   int read_int;
   char delimiter;
   
   while ( true ) {
-    stream >> read_int;
-    this->ramification_type.push_back(read_int);
+    stream >> read_uint;
+    this->ramification_type.push_back(read_uint);
   
     delimiter = stream.peek();
     if ( delimiter == ',' ) {
diff --git a/src/store/file_store.cc b/src/store/file_store.cc
index 37b8082..cf613be 100644
--- a/src/store/file_store.cc
+++ b/src/store/file_store.cc
@@ -120,7 +120,7 @@ extract(
     vuu_block & block
     )
 {
-  int lbd, ubd;
+  unsigned int lbd, ubd;
 
   string line;
   getline(stream, line);
-- 
2.43.0


From 3d661ed4bb3bbfe249579df06a22e2d1f9f53d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:08 +0000
Subject: [PATCH 13/13] fix: read unsigned settings of a configuration as
 unsigned numbers

Settings of 2^31 and beyond could be encoded but not decoded, and negative
ones were taken for large numbers.
---
 src/config/config_node.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/config/config_node.cc b/src/config/config_node.cc
index 8273ced..5ed9fe0 100644
--- a/src/config/config_node.cc
+++ b/src/config/config_node.cc
@@ -88,23 +88,23 @@ namespace YAML
          || !node["PackageSize"] )
       return false;
   
-    config.prime = node["Prime"].as<int>();
-    config.prime_exponent = node["PrimeExponent"].as<int>();
+    config.prime = node["Prime"].as<unsigned int>();
+    config.prime_exponent = node["PrimeExponent"].as<unsigned int>();
   
-    config.genus = node["Genus"].as<int>();
+    config.genus = node["Genus"].as<unsigned int>();
     if ( node["WithMarkedPoint"] )
       config.with_marked_point = node["WithMarkedPoint"].as<bool>();
     else
       config.with_marked_point = false;
 
     if ( node["CountExponent"] )
-      config.count_exponent = node["CountExponent"].as<int>();
+      config.count_exponent = node["CountExponent"].as<unsigned int>();
     else
       config.count_exponent = config.genus;
   
     config.result_path = path(node["ResultPath"].as<string>());
   
-    config.package_size = node["PackageSize"].as<int>();
+    config.package_size = node["PackageSize"].as<unsigned int>();
   
     return true;
   }
-- 
2.43.0

