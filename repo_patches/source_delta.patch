From 93c668b984a368f47e07f08910ccd03923e0c19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:12 +0000
Subject: [PATCH 01/48] fix: discrete sampling returned state -1 (or a zero
 probability state) when the uniform draw was exactly 0

---
 orocos_bfl/src/pdf/discreteconditionalpdf.cpp |  5 +++--
 orocos_bfl/src/pdf/discretepdf.cpp            | 11 ++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
index 250710e..526cd39 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
@@ -165,9 +165,10 @@ namespace BFL
     double unif_sample; unif_sample = runif();
     // Compare where we should be: THIS CAN BE MADE FASTER: TODO
     index = 0;
-    while ( unif_sample > _valuelist[index] )
+    // state k is drawn iff valuelist[k] <= u < valuelist[k+1], so also u==0
+    // selects a valid state with non-zero probability
+    while ( index < NumStatesGet() && unif_sample >= _valuelist[index] )
       {
-	assert(index <= NumStatesGet());
 	index++;
       }
     one_sample.ValueSet(index-1);
diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index d47ebf3..6d4ce80 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -158,10 +158,10 @@ namespace BFL
 
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      {
-	        while ( unif_samples[i] > *CumPDFit )
+	        // state k is drawn iff CumPDF[k] <= u < CumPDF[k+1], so also u==0
+	        // selects a valid state with non-zero probability
+	        while ( index < num_states && unif_samples[i] >= *CumPDFit )
 	        {
-	  	// check for internal error
-	  	assert(index <= num_states);
 	  	index++; CumPDFit++;
 	        }
           int a = index - 1;
@@ -188,9 +188,10 @@ namespace BFL
 	  double unif_sample; unif_sample = runif();
 	  // Compare where we should be
 	  unsigned int index = 0;
-	  while ( unif_sample > _CumPDF[index] )
+	  // state k is drawn iff CumPDF[k] <= u < CumPDF[k+1], so also u==0
+	  // selects a valid state with non-zero probability
+	  while ( index < NumStatesGet() && unif_sample >= _CumPDF[index] )
 	    {
-	      assert(index <= NumStatesGet());
 	      index++;
 	    }
 	  int a = index - 1;
-- 
2.43.0


From 6e89303e593c84b88cf526c35e2a7163deeaa158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:12 +0000
Subject: [PATCH 02/48] fix: DiscretePdf::ProbabilitySet aborted when all other
 states had probability zero (single state, or 1 minus rounding)

---
 orocos_bfl/src/pdf/discretepdf.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index 6d4ce80..7e17b7e 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -91,15 +91,19 @@ namespace BFL
     // renormalize other probabilities such that sum of probabilities will be
     // one after the probability of state is set to a
     // This should keep the probabilities normalized
-    Probability old_prob_state = ProbabilityGet(state);
-    if (old_prob_state!=1) {
-        double normalization_factor = (1-a)/(1-old_prob_state);
+    double prob_other_states = 0.0;
+    for (int i=0; i<NumStatesGet();i++)
+    {
+        if (i != state) prob_other_states += (double)( (*_Values_p)[i] );
+    }
+    if (prob_other_states > 0) {
+        double normalization_factor = (1-a)/prob_other_states;
         for (int i=0; i<NumStatesGet();i++)
         {
             (*_Values_p)[i] = (Probability)( (double)( (*_Values_p)[i] )* normalization_factor);
         }
     }
-    else{
+    else if (NumStatesGet() > 1) {
         for (int i=0; i<NumStatesGet();i++)
         {
             (*_Values_p)[i] = (Probability)( (1-a)/(NumStatesGet()-1));
-- 
2.43.0


From 1ba42ca2a9c9ed72e2d7a14f77eef938045b62d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:12 +0000
Subject: [PATCH 03/48] fix: assigning a DiscretePdf shared (and later double
 freed) its probabilities

---
 orocos_bfl/src/pdf/discretepdf.cpp | 12 ++++++++++++
 orocos_bfl/src/pdf/discretepdf.h   |  3 +++
 2 files changed, 15 insertions(+)

diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index 7e17b7e..dd4aa4c 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -56,6 +56,18 @@ namespace BFL
 #endif // __CONSTRUCTOR__
   }
 
+  DiscretePdf & DiscretePdf::operator=(const DiscretePdf & my_dpdf)
+  {
+    if (this != &my_dpdf)
+    {
+      Pdf<int>::operator=(my_dpdf);
+      _num_states = my_dpdf._num_states;
+      *_Values_p = *(my_dpdf._Values_p);
+      _CumPDF = my_dpdf._CumPDF;
+    }
+    return *this;
+  }
+
   DiscretePdf::~DiscretePdf()
   {
 #ifdef __CONSTRUCTOR__
diff --git a/orocos_bfl/src/pdf/discretepdf.h b/orocos_bfl/src/pdf/discretepdf.h
index 92d55c9..5eb76af 100644
--- a/orocos_bfl/src/pdf/discretepdf.h
+++ b/orocos_bfl/src/pdf/discretepdf.h
@@ -58,6 +58,9 @@ namespace BFL
       /// Copy Constructor
       DiscretePdf(const DiscretePdf &);
 
+      /// Assignment operator
+      DiscretePdf & operator=(const DiscretePdf &);
+
       /// Destructor
       virtual ~DiscretePdf();
 
-- 
2.43.0


From c7a4b3b27d222fb4ec172380e6b00ec9a2328635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:12 +0000
Subject: [PATCH 04/48] fix: DiscretePdf::ProbabilitiesSet left an unnormalised
 pdf behind when it failed

---
 orocos_bfl/src/pdf/discretepdf.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index dd4aa4c..39daeb5 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -134,9 +134,16 @@ namespace BFL
   {
     assert(v.size() == NumStatesGet());
 
+    vector<Probability> old_values = *_Values_p;
     *_Values_p = v;
     //normalize the probabilities and update the cumulative sum
-    return (NormalizeProbs() && CumPDFUpdate());
+    if (!NormalizeProbs())
+    {
+      // the values can not be normalized: keep the current (normalized) ones
+      *_Values_p = old_values;
+      return false;
+    }
+    return CumPDFUpdate();
   }
 
   // For optimal performance!
-- 
2.43.0


From 03f123ca0228a198403833083f63139d21661ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:49 +0000
Subject: [PATCH 05/48] fix: HistogramFilter reported success for an update
 that could not be normalised

---
 orocos_bfl/src/filter/histogramfilter.cpp | 15 ++++++++-------
 orocos_bfl/src/filter/histogramfilter.h   |  4 ++--
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/orocos_bfl/src/filter/histogramfilter.cpp b/orocos_bfl/src/filter/histogramfilter.cpp
index c3f47ce..245f43c 100644
--- a/orocos_bfl/src/filter/histogramfilter.cpp
+++ b/orocos_bfl/src/filter/histogramfilter.cpp
@@ -38,7 +38,7 @@
   }
 
   template <typename MeasVar>
-  void
+  bool
   HistogramFilter<MeasVar>::SysUpdate(SystemModel<int>* const sysmodel, const int& u)
   {
     bool without_inputs = sysmodel->SystemWithoutInputs();
@@ -64,11 +64,11 @@
         }
        _new_prob[to_state] = temp;
     }
-    ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_new_prob);
+    return ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_new_prob);
   }
 
   template <typename MeasVar>
-  void
+  bool
   HistogramFilter<MeasVar>::MeasUpdate(MeasurementModel<MeasVar,int>* const measmodel, const MeasVar& z, const int& s)
   {
       int num_states = ( (DiscretePdf*)this->_post )->NumStatesGet();
@@ -79,7 +79,7 @@
           else _old_prob[state] = _old_prob[state] * measmodel->ProbabilityGet(z,state,s);
           _old_prob[state] = (Probability)((double)( _old_prob[state]) );
       }
-      ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_old_prob);
+      return ( (DiscretePdf*)this->_post )->ProbabilitiesSet(_old_prob);
   }
 
   template <typename MeasVar>
@@ -89,9 +89,10 @@
 			       MeasurementModel<MeasVar,int>* const measmodel,
 			       const MeasVar& z, const int& s)
   {
-    if (sysmodel != NULL) 	SysUpdate(sysmodel,u);
-    if (measmodel != NULL)	MeasUpdate(measmodel,z,s);
-    return true;
+    bool result = true;
+    if (sysmodel != NULL) 	result = SysUpdate(sysmodel,u) && result;
+    if (measmodel != NULL)	result = MeasUpdate(measmodel,z,s) && result;
+    return result;
   }
 
   template <typename MeasVar>
diff --git a/orocos_bfl/src/filter/histogramfilter.h b/orocos_bfl/src/filter/histogramfilter.h
index 5992b08..951c11b 100644
--- a/orocos_bfl/src/filter/histogramfilter.h
+++ b/orocos_bfl/src/filter/histogramfilter.h
@@ -71,7 +71,7 @@ protected:
     @param sysmodel pointer to the system model the filter should use
     @param u input to the system
   */
-  void SysUpdate(SystemModel<int>* const sysmodel,
+  bool SysUpdate(SystemModel<int>* const sysmodel,
 			 const int& u);
 
   /// Measurement Update
@@ -83,7 +83,7 @@ protected:
       @param s input to the system (must be of the same type as u
       for now, since this was not yet implemented in ConditionalPdf
   */
-  void MeasUpdate(MeasurementModel<MeasVar,int>* const measmodel,
+  bool MeasUpdate(MeasurementModel<MeasVar,int>* const measmodel,
 			  const MeasVar& z,
 			  const int& s);
 
-- 
2.43.0


From e648a6d5c910a70fbd19a44cd56db3a4fb205cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:49 +0000
Subject: [PATCH 06/48] fix: assigning a DiscreteConditionalPdf shared its
 table with the source; free the table on destruction

---
 orocos_bfl/src/pdf/discreteconditionalpdf.cpp | 25 +++++++++++++++++--
 orocos_bfl/src/pdf/discreteconditionalpdf.h   |  2 ++
 2 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
index 526cd39..b3b839e 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.cpp
@@ -53,8 +53,8 @@ namespace BFL
 #ifdef __DCPDFDEBUG__
     cout << "DCPdf Destructor:" << endl;
 #endif // __DCPDFDEBUG__
-    //delete _probability_p;
-    //delete _cond_arg_dims_p;
+    delete[] _probability_p;
+    delete[] _cond_arg_dims_p;
   }
 
 
@@ -80,6 +80,27 @@ namespace BFL
       }
   }
 
+  DiscreteConditionalPdf & DiscreteConditionalPdf::operator=(const DiscreteConditionalPdf & pdf)
+  {
+    if (this != &pdf)
+      {
+	ConditionalPdf<int,int>::operator=(pdf);
+	_num_states = pdf._num_states;
+	_total_dimension = pdf._total_dimension;
+	_probs = pdf._probs;
+	_valuelist = pdf._valuelist;
+	delete[] _cond_arg_dims_p;
+	_cond_arg_dims_p = new int[NumConditionalArgumentsGet()];
+	for ( unsigned int arg = 0 ; arg < NumConditionalArgumentsGet(); arg++)
+	  _cond_arg_dims_p[arg] = pdf._cond_arg_dims_p[arg];
+	delete[] _probability_p;
+	_probability_p = new double[_total_dimension];
+	for (int prob = 0 ; prob < _total_dimension ; prob++)
+	  _probability_p[prob] = pdf._probability_p[prob];
+      }
+    return *this;
+  }
+
   //Clone function
   DiscreteConditionalPdf* DiscreteConditionalPdf::Clone() const
   {
diff --git a/orocos_bfl/src/pdf/discreteconditionalpdf.h b/orocos_bfl/src/pdf/discreteconditionalpdf.h
index 3f743d0..72e47b3 100644
--- a/orocos_bfl/src/pdf/discreteconditionalpdf.h
+++ b/orocos_bfl/src/pdf/discreteconditionalpdf.h
@@ -92,6 +92,8 @@ namespace BFL
 			     int cond_arg_dimensions[] = NULL);
       /// Copy constructor
       DiscreteConditionalPdf(const DiscreteConditionalPdf & pdf);
+      /// Assignment operator
+      DiscreteConditionalPdf & operator=(const DiscreteConditionalPdf & pdf);
       /// Destructor
       virtual ~DiscreteConditionalPdf();
 
-- 
2.43.0


From 6d83f3bc47703c9997d8875dd4fb8f0139170718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:52 +0000
Subject: [PATCH 07/48] fix: MCPdf sampling read before the first sample when
 the uniform draw was exactly 0

---
 orocos_bfl/src/pdf/mcpdf.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/orocos_bfl/src/pdf/mcpdf.h b/orocos_bfl/src/pdf/mcpdf.h
index e2390ff..882a2c3 100644
--- a/orocos_bfl/src/pdf/mcpdf.h
+++ b/orocos_bfl/src/pdf/mcpdf.h
@@ -271,9 +271,10 @@ namespace BFL
 
 	    for ( unsigned int i = 0; i < numsamples ; i++)
 	      {
-		while ( unif_samples[i] > *CumPDFit )
+		// sample k is drawn iff CumPDF[k] <= u < CumPDF[k+1], so also u==0
+		// selects a valid sample with non-zero weight
+		while ( index < size && unif_samples[i] >= *CumPDFit )
 		  {
-		    assert(index <= size);
 		    index++; it++; CumPDFit++;
 		  }
 		it--;
@@ -308,10 +309,10 @@ namespace BFL
 	    typename vector<double>::const_iterator CumPDFit;
 	    CumPDFit = _CumPDF.begin();
 
-	    while ( unif_sample > *CumPDFit )
+	    // sample k is drawn iff CumPDF[k] <= u < CumPDF[k+1], so also u==0
+	    // selects a valid sample with non-zero weight
+	    while ( index < size && unif_sample >= *CumPDFit )
 	      {
-		// check for internal error
-		assert(index <= size);
 		index++; it++; CumPDFit++;
 	      }
 	    it--;
-- 
2.43.0


From 69b039f0388913234a3605c3aa456976dee98d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:52 +0000
Subject: [PATCH 08/48] fix: MCPdf was left with an all-zero, unnormalised
 sample list when a list was refused

---
 orocos_bfl/src/pdf/mcpdf.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/orocos_bfl/src/pdf/mcpdf.h b/orocos_bfl/src/pdf/mcpdf.h
index 882a2c3..f1dbedf 100644
--- a/orocos_bfl/src/pdf/mcpdf.h
+++ b/orocos_bfl/src/pdf/mcpdf.h
@@ -66,6 +66,8 @@ namespace BFL
       bool SumWeightsUpdate();
       /// Normalizing the weights
       bool NormalizeWeights();
+      /// Check if the weights of a list of samples can be normalized
+      static bool WeightsNormalizable(const vector<WeightedSample<T> > & los);
       /// After updating weights, we have to update the cumPDF
       void CumPDFUpdate();
 
@@ -382,6 +384,8 @@ namespace BFL
   template <typename T> bool
     MCPdf<T>::ListOfSamplesSet(const vector<WeightedSample<T> > & los)
     {
+      // a list that can not be normalised is refused: keep the current one
+      if (los.size() != 0 && !WeightsNormalizable(los)) return false;
       // Allocate necessary memory
       this->NumSamplesSet(los.size());
       _listOfSamples = los;
@@ -432,6 +436,8 @@ namespace BFL
       assert (los.size() == _listOfSamples.size());
       if (los.size() != 0)
 	{
+	  // a list that can not be normalised is refused: keep the current one
+	  if (!WeightsNormalizable(los)) return false;
 	  _listOfSamples = los;
 	  return this->NormalizeWeights();
 	}
@@ -489,6 +495,18 @@ namespace BFL
       }
     }
 
+  template <typename T> bool
+    MCPdf<T>::WeightsNormalizable(const vector<WeightedSample<T> > & los)
+    {
+      double SumOfWeights = 0.0;
+      for ( unsigned int i = 0 ; i < los.size() ; i++ )
+	SumOfWeights += los[i].WeightGet();
+      if (SumOfWeights > 0) return true;
+      cerr << "MCPDF::WeightsNormalizable: SumWeights = " << SumOfWeights << endl;
+      return false;
+    }
+
+
   template <typename T> bool
     MCPdf<T>::NormalizeWeights()
     {
-- 
2.43.0


From d646f3f7117782f056b1cc96a2d45f16a6a9d13c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:47 +0000
Subject: [PATCH 09/48] fix: ParticleFilter used an uninitialised flag
 (proposal depends on measurement)

---
 orocos_bfl/src/filter/particlefilter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 335b0bc..8c7986a 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -35,6 +35,7 @@ ParticleFilter<SV,MV>::ParticleFilter(MCPdf<SV> * prior,
   , _proposal(proposal)
   , _sample(WeightedSample<SV>(prior->DimensionGet()))
   , _resampleScheme(resamplescheme)
+  , _proposal_depends_on_meas(false)
   , _created_post(true)
 {
   /* Initialize Post, at time = 0, post = prior
@@ -80,6 +81,7 @@ ParticleFilter<SV,MV>::ParticleFilter(MCPdf<SV> * prior,
   : Filter<SV,MV>(prior),
     _proposal(proposal),
     _resampleScheme(resamplescheme),
+    _proposal_depends_on_meas(false),
     _created_post(false)
 {
   this->_post = post;
-- 
2.43.0


From 29c9ebd7b403068a971a67cdc4ae19bce42fc326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:17 +0000
Subject: [PATCH 10/48] fix: ParticleFilter omitted the system/proposal density
 ratio for measurement models with sensor parameters

---
 orocos_bfl/src/filter/particlefilter.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 8c7986a..86c8406 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -229,8 +229,10 @@ ParticleFilter<SV,MV>::UpdateWeightsInternal(SystemModel<SV> * const sysmodel,
 	{
       _proposal->ConditionalArgumentSet(0,x_old);
 	  if (measmodel->SystemWithoutSensorParams() == true)
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new);
+	    weightfactor = measmodel->ProbabilityGet(z,x_new);
+	  else // System with sensor Parameters
+	    weightfactor = measmodel->ProbabilityGet(z,x_new,s);
+	    { // importance ratio of the system model and the proposal
 	      if (sysmodel->SystemWithoutInputs() == false)
 		{
 		  _proposal->ConditionalArgumentSet(1,u);
@@ -256,10 +258,6 @@ ParticleFilter<SV,MV>::UpdateWeightsInternal(SystemModel<SV> * const sysmodel,
 		  else weightfactor = 0;
 		}
 	    }
-	  else // System with sensor Parameters
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new,s);
-	    }
 	}
       _ns_it->WeightSet(_ns_it->WeightGet() * weightfactor);
 
-- 
2.43.0


From 433e846437811107f0ec9c4e3a6c2df2952f2e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:48 +0000
Subject: [PATCH 11/48] fix: Mixture sampling read component -1 when the
 uniform draw was exactly 0, and ordered sampling handed its own method to the
 components

---
 orocos_bfl/src/pdf/mixture.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index d43118f..f2209bd 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -317,15 +317,18 @@ template<typename T>
 
 	    for ( unsigned int i = 0; i < num_samples ; i++)
 	      {
-	        while ( unif_samples[i] > *CumPDFit )
+	        // component k is drawn iff cumWeights[k] <= u < cumWeights[k+1], so
+	        // also u==0 selects a valid component with non-zero weight
+	        while ( index < num_states && unif_samples[i] >= *CumPDFit )
 	        {
-	  	// check for internal error
-	  	assert(index <= num_states);
 	  	index++; CumPDFit++;
 	        }
           // index-1 is a sample of the discrete pdf of the mixture weights
           // get a sample from the index-1'th mixture component
-	      (*_componentPdfs)[index-1]->SampleFrom(*sit,method,args);
+	      // (the ordered method only selects the components, a single sample of
+	      // a component is drawn with the default method)
+	      if ( !(*_componentPdfs)[index-1]->SampleFrom(*sit,SampleMthd::DEFAULT,args) )
+	        return false;
 	      sit++;
 	      }
 	    return true;
@@ -347,15 +350,15 @@ template<typename T>
 	  double unif_sample; unif_sample = runif();
 	  // Compare where we should be
 	  unsigned int index = 0;
-	  while ( unif_sample > _cumWeights[index] )
+	  // component k is drawn iff cumWeights[k] <= u < cumWeights[k+1], so
+	  // also u==0 selects a valid component with non-zero weight
+	  while ( index < NumComponentsGet() && unif_sample >= _cumWeights[index] )
 	    {
-	      assert(index <= NumComponentsGet());
 	      index++;
 	    }
          // index-1 is a sample of the discrete pdf of the mixture weights
       // get a sample from the index-1'th mixture component
-	  (*_componentPdfs)[index-1]->SampleFrom(one_sample,method,args);
-	  return true;
+	  return (*_componentPdfs)[index-1]->SampleFrom(one_sample,method,args);
 	}
       default:
 	cerr << "Mixture::Samplefrom(T, void *): No such sampling method"
-- 
2.43.0


From 5a44b66e76240c4b0fb356391168d9a67f35918c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:48 +0000
Subject: [PATCH 12/48] fix: Mixture::WeightSet aborted for a single component
 and when the other components had weight zero

---
 orocos_bfl/src/pdf/mixture.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index f2209bd..27db915 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -423,16 +423,20 @@ template<typename T>
 
     if (NumComponentsGet() == 1)
     {
-        (*_componentWeights)[0] = weight;
+        (*_componentWeights)[0] = 1.0; // the weight of a single component is always 1
     }
     else
     {
         // renormalize other weights such that sum of probabilities will be
         // one after the weight of the component is set to weight
         // This should keep the probabilities normalized
-        Probability old_weight = WeightGet(componentNumber);
-        if ((double)old_weight!=1.0) {
-            double normalization_factor = (1-weight)/(1-old_weight);
+        double weight_other_components = 0.0;
+        for (int i=0; i<NumComponentsGet();i++)
+        {
+            if (i != componentNumber) weight_other_components += (double)( (*_componentWeights)[i] );
+        }
+        if (weight_other_components > 0) {
+            double normalization_factor = (1-weight)/weight_other_components;
             for (int i=0; i<NumComponentsGet();i++)
             {
                 (*_componentWeights)[i] = (Probability)( (double)( (*_componentWeights)[i] )* normalization_factor);
-- 
2.43.0


From ea4778642529a860751ccebec6bed01ac6e6eeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:48 +0000
Subject: [PATCH 13/48] fix: Mixture::WeightsSet left unnormalised weights
 behind when it failed

---
 orocos_bfl/src/pdf/mixture.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 27db915..90a9003 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -409,9 +409,16 @@ template<typename T>
   {
     TestNotInit();
     assert(weights.size() == NumComponentsGet());
+    vector<Probability> old_weights = *_componentWeights;
     *_componentWeights = weights;
     //normalize the probabilities and update the cumulative sum
-    return (NormalizeWeights() && CumWeightsUpdate());
+    if (!NormalizeWeights())
+    {
+      // the weights can not be normalized: keep the current (normalized) ones
+      *_componentWeights = old_weights;
+      return false;
+    }
+    return CumWeightsUpdate();
   }
 
 template<typename T>
-- 
2.43.0


From 6c593c7019412cdf72307ea585d4fd2720f519f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:48 +0000
Subject: [PATCH 14/48] fix: Mixture::DeleteComponent left weights of zero
 behind when it deleted the only component with weight

---
 orocos_bfl/src/pdf/mixture.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 90a9003..7f183dc 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -539,8 +539,16 @@ template<typename T>
     assert(NumComponentsGet()+1==_cumWeights.size());
     if(_numComponents==0) //don't do normalization if numComponents == 0
         return true;
-    else
-        return (NormalizeWeights() && CumWeightsUpdate());
+
+    double remaining_weight = 0.0;
+    for (unsigned int i=0; i<NumComponentsGet();i++)
+        remaining_weight += (*_componentWeights)[i];
+    if (!(remaining_weight > 0)) // as in WeightSet: distribute equally
+    {
+        for (unsigned int i=0; i<NumComponentsGet();i++)
+            (*_componentWeights)[i] = (Probability)(1.0/NumComponentsGet());
+    }
+    return (NormalizeWeights() && CumWeightsUpdate());
   }
 
 template<typename T>
-- 
2.43.0


From f346c7030eb4162a3549401c489e6aeb1a4f86fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:48 +0000
Subject: [PATCH 15/48] fix: Mixture::ComponentsGet did not compile

---
 orocos_bfl/src/pdf/mixture.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index 7f183dc..e6beb4a 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -555,7 +555,7 @@ template<typename T>
   vector<Pdf<T>*> Mixture<T>::ComponentsGet() const
   {
     TestNotInit();
-    return _componentPdfs;
+    return *_componentPdfs;
   }
 
 template<typename T>
-- 
2.43.0


From 0d4a895977f3d1951e64334c3b1d94e0f75f7b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:48 +0000
Subject: [PATCH 16/48] fix: copying an empty Mixture aborted

---
 orocos_bfl/src/pdf/mixture.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index e6beb4a..f91ac0f 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -228,9 +228,10 @@ Mixture<T>::Mixture(const Mixture & my_mixture):Pdf<T>(my_mixture.DimensionGet()
   {
     //create pointer to vector of component weights
     _componentWeights = new vector<Probability>(this->NumComponentsGet());
-    (*_componentWeights) = my_mixture.WeightsGet();
+    (*_componentWeights) = *(my_mixture._componentWeights);
     _cumWeights.insert(_cumWeights.begin(),NumComponentsGet()+1,0.0);
-    CumWeightsUpdate();
+    if (NumComponentsGet() > 0)
+      CumWeightsUpdate();
 
     //create pointer to vector of pointers to weights
     _componentPdfs = new vector< Pdf<T>* >(NumComponentsGet());
-- 
2.43.0


From c638abb7ca6b67de42a7b66ae2087e9363609e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:48 +0000
Subject: [PATCH 17/48] fix: assigning a Mixture shared (and later double
 freed) its components and weights

---
 orocos_bfl/src/pdf/mixture.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index f91ac0f..c50d3c5 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -87,6 +87,9 @@ namespace BFL
 
       Mixture(const Mixture & my_mixture);
 
+      /// Assignment
+      Mixture & operator=(const Mixture & my_mixture);
+
       /// Destructor
       virtual ~Mixture();
 
@@ -244,6 +247,22 @@ Mixture<T>::Mixture(const Mixture & my_mixture):Pdf<T>(my_mixture.DimensionGet()
 #endif // __CONSTRUCTOR__
   }
 
+template<typename T>
+  Mixture<T> & Mixture<T>::operator=(const Mixture & my_mixture)
+  {
+    if (this != &my_mixture)
+    {
+      Mixture copy(my_mixture);
+      Pdf<T>::operator=(my_mixture);
+      // the destructor of the copy releases what this mixture owned
+      std::swap(_numComponents, copy._numComponents);
+      std::swap(_componentWeights, copy._componentWeights);
+      std::swap(_componentPdfs, copy._componentPdfs);
+      std::swap(_cumWeights, copy._cumWeights);
+    }
+    return *this;
+  }
+
 template<typename T>
   Mixture<T>::~Mixture()
   {
-- 
2.43.0


From ec7df9f458c28cf12a4245de60baaef6c936a2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:50 +0000
Subject: [PATCH 18/48] fix: drawing an empty list with the ordered (Ripley)
 method wrote before the start of a buffer

---
 orocos_bfl/src/pdf/discretepdf.cpp | 2 ++
 orocos_bfl/src/pdf/mcpdf.h         | 2 ++
 orocos_bfl/src/pdf/mixture.h       | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/orocos_bfl/src/pdf/discretepdf.cpp b/orocos_bfl/src/pdf/discretepdf.cpp
index 39daeb5..e18706e 100644
--- a/orocos_bfl/src/pdf/discretepdf.cpp
+++ b/orocos_bfl/src/pdf/discretepdf.cpp
@@ -161,6 +161,8 @@ namespace BFL
       case SampleMthd::RIPLEY: // See mcpdf.cpp for more explanation
 	  {
 	    list_samples.resize(num_samples);
+	    if (num_samples == 0)
+	      return true;
 	    // GENERATE N ORDERED IID UNIFORM SAMPLES
 	    std::vector<double> unif_samples(num_samples);
 	    for ( unsigned int i = 0; i < num_samples ; i++)
diff --git a/orocos_bfl/src/pdf/mcpdf.h b/orocos_bfl/src/pdf/mcpdf.h
index f1dbedf..08c8117 100644
--- a/orocos_bfl/src/pdf/mcpdf.h
+++ b/orocos_bfl/src/pdf/mcpdf.h
@@ -233,6 +233,8 @@ namespace BFL
 			  void * args) const
     {
       list_samples.resize(numsamples);
+      if (numsamples == 0)
+	return true;
       switch(method)
 	{
     case SampleMthd::DEFAULT: // O(N log(N) efficiency)
diff --git a/orocos_bfl/src/pdf/mixture.h b/orocos_bfl/src/pdf/mixture.h
index c50d3c5..32aa23d 100644
--- a/orocos_bfl/src/pdf/mixture.h
+++ b/orocos_bfl/src/pdf/mixture.h
@@ -317,6 +317,8 @@ template<typename T>
       case SampleMthd::RIPLEY: // See mcpdf.cpp for more explanation
 	  {
 	    list_samples.resize(num_samples);
+	    if (num_samples == 0)
+	      return true;
 	    // GENERATE N ORDERED IID UNIFORM SAMPLES
 	    std::vector<double> unif_samples(num_samples);
 	    for ( unsigned int i = 0; i < num_samples ; i++)
-- 
2.43.0


From 5ec0d3ab7bff2bb05b21748da3219a44975cca1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:29 +0000
Subject: [PATCH 19/48] fix: MixtureParticleFilter counted one time step per
 component, so fixed period resampling came too early

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index 54e675a..f004379 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -185,6 +185,9 @@ MixtureParticleFilter<SV,MV>::ProposalStepInternal(SystemModel<SV> * const sysmo
     {
         result = result && this->ProposalStepInternalOne(i,sysmodel,u,measmodel,z,s);
     }
+
+    (this->_timestep)++;
+
     return result;
 }
 
@@ -237,8 +240,6 @@ MixtureParticleFilter<SV,MV>::ProposalStepInternalOne(int component, SystemModel
       _ns_it++;
     }
 
-  (this->_timestep)++;
-
   // Update the list of samples
   return (dynamic_cast<MCPdf<SV> *>(dynamic_cast<Mixture<SV> *>(this->_post)->ComponentGet(component)))->ListOfSamplesUpdate(_new_samplesVec[component]);
 
-- 
2.43.0


From 6629d42797ad69406e10fe4af217f741b7833b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:29 +0000
Subject: [PATCH 20/48] fix: MixtureParticleFilter used an uninitialised flag
 (proposal depends on measurement) and accepted component number N

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index f004379..e7ba6c3 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -36,6 +36,7 @@ MixtureParticleFilter<SV,MV>::MixtureParticleFilter(Mixture<SV> * prior,
   , _proposal(proposal)
   , _sample(WeightedSample<SV>(prior->DimensionGet()))
   , _resampleScheme(resamplescheme)
+  , _proposal_depends_on_meas(false)
   , _created_post(true)
   , _newMixtureWeights(prior->NumComponentsGet())
   , _sumWeights(prior->NumComponentsGet())
@@ -87,6 +88,7 @@ MixtureParticleFilter<SV,MV>::MixtureParticleFilter(Mixture<SV> * prior,
   : Filter<SV,MV>(prior)
   ,  _proposal(proposal)
   ,  _resampleScheme(resamplescheme)
+  ,  _proposal_depends_on_meas(false)
   ,  _created_post(false)
   , _newMixtureWeights(prior->NumComponentsGet())
   , _sumWeights(prior->NumComponentsGet())
@@ -279,7 +281,7 @@ MixtureParticleFilter<SV,MV>::UpdateWeightsInternalOne(int component,SystemModel
 					     const MV & z,
 					     const SV & s)
 {
-  if(component < 0 || component > dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet())
+  if(component < 0 || component >= (int)dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet())
   {
         cerr<< "MixtureParticleFilter::UpdateWeightsInternalOne called with invalid component number " << endl;
         return false;
-- 
2.43.0


From bb76a98436340d0f7006893bae1c304c8b919e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:29 +0000
Subject: [PATCH 21/48] fix: MixtureParticleFilter constructor with a posterior
 did not compile

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index e7ba6c3..7c41074 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -87,6 +87,7 @@ MixtureParticleFilter<SV,MV>::MixtureParticleFilter(Mixture<SV> * prior,
                       int maintainMixturePeriod)
   : Filter<SV,MV>(prior)
   ,  _proposal(proposal)
+  ,  _sample(WeightedSample<SV>(prior->DimensionGet()))
   ,  _resampleScheme(resamplescheme)
   ,  _proposal_depends_on_meas(false)
   ,  _created_post(false)
@@ -102,17 +103,12 @@ MixtureParticleFilter<SV,MV>::MixtureParticleFilter(Mixture<SV> * prior,
   /* Note: Dirty cast should be avoided by not demanding an MCPdf as
      prior and just sample from the prior instead  :-(
   */
-  bool ret = (dynamic_cast<MCPdf<SV> *>(this->_post))->ListOfSamplesSet(prior->ListOfSamplesGet());
-  assert(ret);
-  for(int i =0 ; i < prior->NumComponentsGet() ; i++)
-  {
-    bool ret = (dynamic_cast<MCPdf<SV> *>(this->_post->ComponentGet(i)))->ListOfSamplesSet(prior->ComponentGet(i)->ListOfSamplesGet());
-  }
+  *post = *prior;
 
   // Initialise vector of lists of samples
   for(int i =0 ; i < prior->NumComponentsGet() ; i++)
   {
-    _old_samplesVec[i] = (prior->ComponentGet(i)->ListOfSamplesGet());
+    _old_samplesVec[i] = (dynamic_cast<MCPdf<SV> *>(prior->ComponentGet(i))->ListOfSamplesGet());
   }
   _new_samplesVec = _old_samplesVec;
 
-- 
2.43.0


From b83c025c50391e8e0d0338c92efaba226c93f670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:29 +0000
Subject: [PATCH 22/48] fix: MixtureParticleFilter omitted the system/proposal
 density ratio for measurement models with sensor parameters

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index 7c41074..2c05c2f 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -307,8 +307,10 @@ MixtureParticleFilter<SV,MV>::UpdateWeightsInternalOne(int component,SystemModel
 	{
       _proposal->ConditionalArgumentSet(0,x_old);
 	  if (measmodel->SystemWithoutSensorParams() == true)
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new);
+	    weightfactor = measmodel->ProbabilityGet(z,x_new);
+	  else // System with sensor Parameters
+	    weightfactor = measmodel->ProbabilityGet(z,x_new,s);
+	    { // importance ratio of the system model and the proposal
 	      if (sysmodel->SystemWithoutInputs() == false)
 		{
 		  _proposal->ConditionalArgumentSet(1,u);
@@ -334,10 +336,6 @@ MixtureParticleFilter<SV,MV>::UpdateWeightsInternalOne(int component,SystemModel
 		  else weightfactor = 0;
 		}
 	    }
-	  else // System with sensor Parameters
-	    {
-	      weightfactor = measmodel->ProbabilityGet(z,x_new,s);
-	    }
 	}
       double new_weight = _ns_it->WeightGet() * weightfactor;
       _ns_it->WeightSet(new_weight);
-- 
2.43.0


From 47dd9d2b9eeb9c0c02fde6962c71ef80e0075b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:29 +0000
Subject: [PATCH 23/48] fix: MixtureParticleFilter::Reset kept sample buffers
 of the old prior and deleted the user's posterior

---
 .../src/filter/mixtureParticleFilter.cpp      | 21 +++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index 2c05c2f..e999c85 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -152,10 +152,23 @@ template <typename SV, typename MV> void
 MixtureParticleFilter<SV,MV>::Reset(Mixture<SV> * prior)
 {
     this->_prior = prior;
-    delete this->_post;
-    this->_post = prior->Clone();
-    this->_newMixtureWeights.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
-    this->_sumWeights.resize(dynamic_cast<Mixture<SV> *>(this->_post)->NumComponentsGet());
+    if (_created_post)
+    {
+      delete this->_post;
+      this->_post = prior->Clone();
+    }
+    else
+      *(dynamic_cast<Mixture<SV> *>(this->_post)) = *prior;
+    int numComponents = prior->NumComponentsGet();
+    this->_newMixtureWeights.resize(numComponents);
+    this->_sumWeights.resize(numComponents);
+    this->_old_samplesVec.resize(numComponents);
+    for(int i = 0 ; i < numComponents ; i++)
+    {
+      this->_old_samplesVec[i] = (dynamic_cast<MCPdf<SV> *>(prior->ComponentGet(i))->ListOfSamplesGet());
+    }
+    this->_new_samplesVec = this->_old_samplesVec;
+    this->_new_samples_unweightedVec.resize(numComponents);
 }
 
 template <typename SV, typename MV> void
-- 
2.43.0


From 6138fb110013352ea2290e4af4fb0d7082c10141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:39 +0000
Subject: [PATCH 24/48] fix: Reset made the given prior the posterior of a
 filter, which overwrote and later deleted the caller's object

---
 orocos_bfl/src/filter/histogramfilter.cpp    | 12 ++++++++++++
 orocos_bfl/src/filter/histogramfilter.h      |  3 +++
 orocos_bfl/src/filter/kalmanfilter.cpp       |  9 +++++++++
 orocos_bfl/src/filter/kalmanfilter.h         |  3 +++
 orocos_bfl/src/filter/particlefilter.cpp     | 10 ++++++++++
 orocos_bfl/src/filter/particlefilter.h       |  3 +++
 orocos_bfl/src/pdf/filterproposaldensity.cpp |  5 ++++-
 7 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/filter/histogramfilter.cpp b/orocos_bfl/src/filter/histogramfilter.cpp
index 245f43c..ef80665 100644
--- a/orocos_bfl/src/filter/histogramfilter.cpp
+++ b/orocos_bfl/src/filter/histogramfilter.cpp
@@ -37,6 +37,18 @@
     delete this->_post;
   }
 
+  template <typename MeasVar>
+  void
+  HistogramFilter<MeasVar>::Reset(Pdf<int> * prior)
+  {
+    DiscretePdf * post = new DiscretePdf(*dynamic_cast<DiscretePdf *>(prior));
+    delete this->_post;
+    this->_post = post;
+    this->_prior = prior;
+    _old_prob = post->ProbabilitiesGet();
+    _new_prob = _old_prob;
+  }
+
   template <typename MeasVar>
   bool
   HistogramFilter<MeasVar>::SysUpdate(SystemModel<int>* const sysmodel, const int& u)
diff --git a/orocos_bfl/src/filter/histogramfilter.h b/orocos_bfl/src/filter/histogramfilter.h
index 951c11b..9302796 100644
--- a/orocos_bfl/src/filter/histogramfilter.h
+++ b/orocos_bfl/src/filter/histogramfilter.h
@@ -58,6 +58,9 @@ public:
   /// Destructor
   virtual ~HistogramFilter();
 
+  /// Reset Filter: the posterior becomes a copy of the given (discrete) prior
+  virtual void Reset(Pdf<int> * prior);
+
   // implement virtual function
   virtual DiscretePdf* PostGet();
 
diff --git a/orocos_bfl/src/filter/kalmanfilter.cpp b/orocos_bfl/src/filter/kalmanfilter.cpp
index 04b11ed..8004ca8 100644
--- a/orocos_bfl/src/filter/kalmanfilter.cpp
+++ b/orocos_bfl/src/filter/kalmanfilter.cpp
@@ -41,6 +41,15 @@ namespace BFL
     delete _post;
   }
 
+  void
+  KalmanFilter::Reset(Pdf<ColumnVector> * prior)
+  {
+    Gaussian * post = new Gaussian(*dynamic_cast<Gaussian *>(prior));
+    delete _post;
+    _post = post;
+    _prior = prior;
+  }
+
   void
   KalmanFilter::AllocateMeasModel(const vector<unsigned int>& meas_dimensions)
   {
diff --git a/orocos_bfl/src/filter/kalmanfilter.h b/orocos_bfl/src/filter/kalmanfilter.h
index 8c62f2e..4e5dd14 100644
--- a/orocos_bfl/src/filter/kalmanfilter.h
+++ b/orocos_bfl/src/filter/kalmanfilter.h
@@ -58,6 +58,9 @@ public:
   /// Destructor
   virtual ~KalmanFilter();
 
+  /// Reset Filter: the posterior becomes a copy of the given (Gaussian) prior
+  virtual void Reset(Pdf<MatrixWrapper::ColumnVector> * prior);
+
   // implement virtual function
   virtual Gaussian* PostGet();
 
diff --git a/orocos_bfl/src/filter/particlefilter.cpp b/orocos_bfl/src/filter/particlefilter.cpp
index 86c8406..8ccb989 100644
--- a/orocos_bfl/src/filter/particlefilter.cpp
+++ b/orocos_bfl/src/filter/particlefilter.cpp
@@ -131,6 +131,16 @@ ParticleFilter<SV,MV>::ParticleFilter(const ParticleFilter<SV,MV> & filter)
   this->_post = new MCPdf<SV>(dynamic_cast<MCPdf<SV> *>(filter._post));
 }
 
+template <typename SV, typename MV> void
+ParticleFilter<SV,MV>::Reset(Pdf<SV> * prior)
+{
+  _old_samples = (dynamic_cast<MCPdf<SV> *>(prior))->ListOfSamplesGet();
+  _new_samples = _old_samples;
+  bool ret = (dynamic_cast<MCPdf<SV> *>(this->_post))->ListOfSamplesSet(_new_samples);
+  assert(ret);
+  this->_prior = prior;
+}
+
 template <typename SV, typename MV> void
 ParticleFilter<SV,MV>::ProposalSet(ConditionalPdf<SV,SV> * const cpdf)
 {
diff --git a/orocos_bfl/src/filter/particlefilter.h b/orocos_bfl/src/filter/particlefilter.h
index 5ee0ce0..5ae7014 100644
--- a/orocos_bfl/src/filter/particlefilter.h
+++ b/orocos_bfl/src/filter/particlefilter.h
@@ -295,6 +295,9 @@ namespace BFL
        */
       ParticleFilter(const ParticleFilter<StateVar,MeasVar> & filt);
 
+      /// Reset Filter: the posterior gets the samples of the given (Monte Carlo) prior
+      virtual void Reset(Pdf<StateVar> * prior);
+
       /// Set the proposal density
       /** @param cpdf the new proposal density.  The order of the
 	  conditional arguments is fixed and should be: x (state), u
diff --git a/orocos_bfl/src/pdf/filterproposaldensity.cpp b/orocos_bfl/src/pdf/filterproposaldensity.cpp
index 32bad3f..fda51ed 100644
--- a/orocos_bfl/src/pdf/filterproposaldensity.cpp
+++ b/orocos_bfl/src/pdf/filterproposaldensity.cpp
@@ -55,7 +55,10 @@ namespace BFL
     */
   }
 
-  FilterPropDens::~FilterPropDens(){}
+  FilterPropDens::~FilterPropDens()
+  {
+    delete _TmpPrior;
+  }
 
   // BUG Copy constructor not implemented yet
   FilterPropDens::FilterPropDens(const FilterPropDens & fpd){}
-- 
2.43.0


From 5520f7ea29b0d38023fb027c2dc5092dd66172e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:23 +0000
Subject: [PATCH 25/48] fix: resetting a MixtureParticleFilter through the
 Filter interface made the caller's prior the posterior; copies of a filter
 proposal density freed wild pointers

---
 orocos_bfl/src/filter/mixtureParticleFilter.cpp | 6 ++++++
 orocos_bfl/src/filter/mixtureParticleFilter.h   | 3 +++
 orocos_bfl/src/pdf/filterproposaldensity.cpp    | 4 +++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.cpp b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
index e999c85..2382bf4 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.cpp
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.cpp
@@ -171,6 +171,12 @@ MixtureParticleFilter<SV,MV>::Reset(Mixture<SV> * prior)
     this->_new_samples_unweightedVec.resize(numComponents);
 }
 
+template <typename SV, typename MV> void
+MixtureParticleFilter<SV,MV>::Reset(Pdf<SV> * prior)
+{
+    this->Reset(dynamic_cast<Mixture<SV> *>(prior));
+}
+
 template <typename SV, typename MV> void
 MixtureParticleFilter<SV,MV>::ProposalSet(ConditionalPdf<SV,SV> * const cpdf)
 {
diff --git a/orocos_bfl/src/filter/mixtureParticleFilter.h b/orocos_bfl/src/filter/mixtureParticleFilter.h
index 011a142..591600e 100644
--- a/orocos_bfl/src/filter/mixtureParticleFilter.h
+++ b/orocos_bfl/src/filter/mixtureParticleFilter.h
@@ -355,6 +355,9 @@ namespace BFL
       /// Reset Filter
       virtual void Reset(Mixture<StateVar> * prior);
 
+      /// Reset Filter (the prior has to be a mixture)
+      virtual void Reset(Pdf<StateVar> * prior);
+
       /// Set the proposal density
       /** @param cpdf the new proposal density.  The order of the
 	  conditional arguments is fixed and should be: x (state), u
diff --git a/orocos_bfl/src/pdf/filterproposaldensity.cpp b/orocos_bfl/src/pdf/filterproposaldensity.cpp
index fda51ed..a90cf64 100644
--- a/orocos_bfl/src/pdf/filterproposaldensity.cpp
+++ b/orocos_bfl/src/pdf/filterproposaldensity.cpp
@@ -61,7 +61,9 @@ namespace BFL
   }
 
   // BUG Copy constructor not implemented yet
-  FilterPropDens::FilterPropDens(const FilterPropDens & fpd){}
+  FilterPropDens::FilterPropDens(const FilterPropDens & fpd)
+    : _TmpPrior(NULL), _filter(NULL), _sysmodel(NULL), _measmodel(NULL)
+  {}
 
   void
   FilterPropDens::SystemModelSet(AnalyticSystemModelGaussianUncertainty * SysModel)
-- 
2.43.0


From bfad3d3282462ef1226bd01be78db46f5bc849ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:35 +0000
Subject: [PATCH 26/48] fix: EKParticleFilter weighted its samples with the
 prior's samples and the last sample's covariance

---
 orocos_bfl/src/filter/EKparticlefilter.cpp | 41 ++++++++++++++++++++--
 orocos_bfl/src/filter/EKparticlefilter.h   | 12 +++++--
 2 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index 2b017ec..bdbc956 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -39,12 +39,10 @@ namespace BFL
 
     _sampleCov.assign(_num_samples,prior->CovarianceGet());
     _tmpCov.assign(_num_samples,prior->CovarianceGet());
-    _old_samples.assign(_num_samples,WeightedSample<ColumnVector>(_dimension));
     _result_samples.assign(_num_samples,WeightedSample<ColumnVector>(_dimension));
     _unif_samples.assign(_num_samples,0.0);
     _CumPDF.assign(_num_samples,0.0);
-    _x_old.resize(_num_samples);
-    _sample.DimensionSet(_dimension);
+    _x_old.resize(_dimension);
   }
 
   EKParticleFilter::~EKParticleFilter(){
@@ -123,6 +121,7 @@ namespace BFL
     _old_samples = (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesGet();
 
     _ns_it = _new_samples.begin();
+    _tmpCov = _sampleCov; // needed to weight the samples
     _cov_it = _sampleCov.begin();
 
     for ( _os_it=_old_samples.begin(); _os_it != _old_samples.end() ; _os_it++)
@@ -171,4 +170,40 @@ namespace BFL
     return (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesUpdate(_new_samples);
 
   }
+
+  bool
+  EKParticleFilter::UpdateWeightsInternal(SystemModel<CV>* const sysmodel,
+					  const CV& u,
+					  MeasModel<CV,CV>* const measmodel,
+					  const CV& z,
+					  const CV& s)
+  {
+    _new_samples = (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesGet();
+    _os_it = _old_samples.begin();
+    _tmpCovit = _tmpCov.begin();
+
+    for ( _ns_it=_new_samples.begin(); _ns_it != _new_samples.end() ; _ns_it++)
+      {
+	const CV& x_new = _ns_it->ValueGet();
+	_x_old = _os_it->ValueGet();
+
+	// the remaining arguments were set by the proposal step
+	dynamic_cast<FilterProposalDensity *>(this->_proposal)->SampleCovSet(*_tmpCovit);
+	_proposal->ConditionalArgumentSet(0,_x_old);
+
+	Probability weightfactor = measmodel->SystemWithoutSensorParams() ?
+	  measmodel->ProbabilityGet(z,x_new) : measmodel->ProbabilityGet(z,x_new,s);
+	Probability proposal = _proposal->ProbabilityGet(x_new);
+	if (proposal != 0)
+	  weightfactor = weightfactor * ( (sysmodel->SystemWithoutInputs() ?
+	    sysmodel->ProbabilityGet(x_new,_x_old) : sysmodel->ProbabilityGet(x_new,_x_old,u)) / proposal );
+	else weightfactor = 0;
+
+	_ns_it->WeightSet(_ns_it->WeightGet() * weightfactor);
+
+	_os_it++; _tmpCovit++;
+      }
+    // Update the sample list of post the SumofWeights of the pdf
+    return (dynamic_cast<MCPdf<CV> *>(this->_post))->ListOfSamplesUpdate(_new_samples);
+  }
 }
diff --git a/orocos_bfl/src/filter/EKparticlefilter.h b/orocos_bfl/src/filter/EKparticlefilter.h
index bf8b364..585ac6c 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.h
+++ b/orocos_bfl/src/filter/EKparticlefilter.h
@@ -45,8 +45,7 @@ namespace BFL
 
       // helper variables for resampleing to prevent memory allocation on the heap
       const int _dimension;
-      const int _num_samples;
-      std::vector<WeightedSample<ColumnVector> > _old_samples;
+      const int _num_samples; // of the first prior
       std::vector<WeightedSample<ColumnVector> >::iterator _oit;
       std::vector<WeightedSample<ColumnVector> > _result_samples;
       std::vector<WeightedSample<ColumnVector> >::iterator _rit;
@@ -54,7 +53,6 @@ namespace BFL
       std::vector<double> _CumPDF;
       std::vector<double>::const_iterator _CumPDFit;
       ColumnVector _x_old;
-      Sample<ColumnVector> _sample;
 
       virtual bool UpdateInternal(SystemModel<ColumnVector>* const sysmodel,
 				  const ColumnVector& u,
@@ -70,6 +68,14 @@ namespace BFL
 					const ColumnVector & z,
 					const ColumnVector & s);
 
+      /// The proposal density of every sample has its own covariance,
+      /// which also has to be used for the weights
+      virtual bool UpdateWeightsInternal(SystemModel<ColumnVector> * const sysmodel,
+	                                 const ColumnVector & u,
+	                                 MeasurementModel<ColumnVector,ColumnVector> * const measmodel,
+					 const ColumnVector & z,
+					 const ColumnVector & s);
+
       /// Resample also redefined for the same reasons...
       virtual bool Resample();
 
-- 
2.43.0


From 35a0e1883404302f84028650d355f9cbe5e53612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:35 +0000
Subject: [PATCH 27/48] fix: EKParticleFilter resampling kept the old weights,
 read before the first sample for a uniform draw of 0, ignored failures and
 ignored Reset

---
 orocos_bfl/src/filter/EKparticlefilter.cpp | 25 ++++++++++++++++------
 orocos_bfl/src/filter/EKparticlefilter.h   |  3 +++
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/orocos_bfl/src/filter/EKparticlefilter.cpp b/orocos_bfl/src/filter/EKparticlefilter.cpp
index bdbc956..0443624 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.cpp
+++ b/orocos_bfl/src/filter/EKparticlefilter.cpp
@@ -49,6 +49,17 @@ namespace BFL
     delete _proposal;
   }
 
+  void
+  EKParticleFilter::Reset(Pdf<CV> * prior)
+  {
+    ParticleFilter<CV,CV>::Reset(prior);
+    int num_samples = (dynamic_cast<MCPdf<CV> *>(prior))->NumSamplesGet();
+    _sampleCov.assign(num_samples,prior->CovarianceGet());
+    _tmpCov = _sampleCov;
+    _result_samples = _new_samples;
+    _unif_samples.assign(num_samples,0.0);
+  }
+
   // KG: 20040702:  This method will be exactly the same for.  Extra
   // class between?
   bool
@@ -62,10 +73,10 @@ namespace BFL
     dynamic_cast<FilterProposalDensity *>(_proposal)->SystemModelSet(dynamic_cast<AnalyticSystemModelGaussianUncertainty *>(sysmodel));
     dynamic_cast<FilterProposalDensity *>(_proposal)->MeasurementModelSet(dynamic_cast<AnalyticMeasurementModelGaussianUncertainty *>(measmodel));
     // Proposalstep is redefined here...
-    this->StaticResampleStep();
-    result = this->ProposalStepInternal(sysmodel,u,measmodel,z,s) && result;
-    result = this->UpdateWeightsInternal(sysmodel,u,measmodel,z,s) && result;
-    this->DynamicResampleStep();
+    result = result && this->StaticResampleStep();
+    result = result && this->ProposalStepInternal(sysmodel,u,measmodel,z,s);
+    result = result && this->UpdateWeightsInternal(sysmodel,u,measmodel,z,s);
+    result = result && this->DynamicResampleStep();
 
     return result;
   }
@@ -92,14 +103,16 @@ namespace BFL
 
     for ( int i = 0; i < numsamples ; i++)
       {
-	while ( _unif_samples[i] > *_CumPDFit )
+	// sample k is drawn iff CumPDF[k] <= u < CumPDF[k+1], so also u==0
+	// selects a valid sample with non-zero weight
+	while ( index < (unsigned int)numsamples && _unif_samples[i] >= *_CumPDFit )
 	  {
-	    assert(index <= (unsigned int)numsamples);
 	    index++; _oit++; _CumPDFit++; _cov_it++;
 
 	  }
 	_oit--; _cov_it--;
 	*(_rit) = *(_oit);
+	_rit->WeightSet(1.0/numsamples);
     *_tmpCovit = *_cov_it;
 	_oit++; _cov_it++;
 
diff --git a/orocos_bfl/src/filter/EKparticlefilter.h b/orocos_bfl/src/filter/EKparticlefilter.h
index 585ac6c..6b3a674 100644
--- a/orocos_bfl/src/filter/EKparticlefilter.h
+++ b/orocos_bfl/src/filter/EKparticlefilter.h
@@ -97,6 +97,9 @@ namespace BFL
 
       /// Destructor
       virtual ~EKParticleFilter();
+
+      /// Reset Filter
+      virtual void Reset(Pdf<ColumnVector> * prior);
     };
 
 } // End namespace BFL
-- 
2.43.0


From e2cbe7895b7ec886606e7adbd7a174866fa601cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:24 +0000
Subject: [PATCH 28/48] fix: square root Kalman filter transposed its (lower)
 Cholesky factors, so its covariance and gain were wrong for more than one
 state or measurement

---
 orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp | 3 ---
 orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h   | 6 +++---
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
index ade6dcd..b64a84b 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
@@ -50,7 +50,6 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
    // cout<<"post_covar\n"<<_post->CovarianceGet()<<endl;
 
     ((_post->CovarianceGet()).cholesky_semidefinite(JP));
-    JP = JP.transpose();
     // cout<<"JP3\n"<<JP<<endl;
 
   }
@@ -108,7 +107,6 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
          else
          {
                      R_i.cholesky_semidefinite(R_vf);
-                     R_vf = R_vf.transpose();
          }
 
 	// numerical limitations
@@ -195,7 +193,6 @@ void
 	S_temp1.convertToSymmetricMatrix(S_temp);
 
 	S_temp.cholesky_semidefinite(Sr);
-	Sr  = Sr.transpose();
 
 	invS = Sr.inverse();
 	K_i  = JP*(JP.transpose())*(H_i.transpose())*(invS.transpose())*invS;
diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
index 0016778..154cdc8 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
@@ -83,7 +83,7 @@ namespace BFL
       /** Calculate Kalman filter Measurement Update
       \f[ x_k = x_{k-} + K.(z - Z) \f]
       \f[ S=(H_k*J_k*J_k^{'}*H_k+D*R*D^{'})^{'} \f]
-      \f[ Sr=cholesky(S)^{'}\f]
+      \f[ Sr=cholesky(S)\f]
       \f[ J_k = J_k-J_k*J_k^{'}*H^{'}*inv(S)^{'}*inv(R+Sr)*H_k*J_k  \f]
       with
       \f[ K = J_{k}*J_{k}^{'}*H'*inv(S)^{'}*inv(S) \f]
@@ -92,7 +92,7 @@ namespace BFL
 
       /// Calculate K_i , invS and  Sr
       /**
-       \f[ Sr= cholesky(H_i*JP*JP^{'}*H_i^{'}+R_i)^{'}  \f]
+       \f[ Sr= cholesky(H_i*JP*JP^{'}*H_i^{'}+R_i)  \f]
        \f[ invS=inv(Sr)\f]
        \f[ K_i=JP*JP^{'}*H_i^{'}*invS^{'}*invS \f]
        */
@@ -114,7 +114,7 @@ namespace BFL
     private:
       /// Variable indicating the number of iterations of the filter
       unsigned int nr_iterations;
-      /// the upper triangular matrix cholesky decompostion of the state covariance (\f$ JP*JP^{'}=P \f$)
+      /// the lower triangular matrix cholesky decompostion of the state covariance (\f$ JP*JP^{'}=P \f$)
       MatrixWrapper::Matrix JP;
       /// inv(S) matrix
       //BFL::Matrix invS;
-- 
2.43.0


From 92dbd47bfc7dcab971136084f31126974f71863a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:01 +0000
Subject: [PATCH 29/48] fix: square root Kalman filter kept the old square root
 after Reset and PriorSet, and the old covariance after SRCovarianceSet

---
 .../src/filter/SRiteratedextendedkalmanfilter.cpp    | 12 ++++++++++++
 .../src/filter/SRiteratedextendedkalmanfilter.h      |  4 ++++
 2 files changed, 16 insertions(+)

diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
index b64a84b..6018847 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.cpp
@@ -35,6 +35,13 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
 
   SRIteratedExtendedKalmanFilter::~SRIteratedExtendedKalmanFilter(){}
 
+  void
+  SRIteratedExtendedKalmanFilter::Reset(Pdf<MatrixWrapper::ColumnVector> * prior)
+  {
+    KalmanFilter::Reset(prior);
+    (_post->CovarianceGet()).cholesky_semidefinite(JP);
+  }
+
   void
   SRIteratedExtendedKalmanFilter::SysUpdate(SystemModel<MatrixWrapper::ColumnVector>* const sysmodel,const MatrixWrapper::ColumnVector& u)
   {
@@ -156,12 +163,17 @@ SRIteratedExtendedKalmanFilter::SRIteratedExtendedKalmanFilter(Gaussian* prior,
  void SRIteratedExtendedKalmanFilter::SRCovarianceSet(Matrix JP_new)
  {
 		 JP=JP_new;
+		 Matrix Sigma_matrix = JP*(JP.transpose());
+		 SymmetricMatrix Sigma(JP.rows());
+		 Sigma_matrix.convertToSymmetricMatrix(Sigma);
+		 PostSigmaSet( Sigma );
  }
 
  void SRIteratedExtendedKalmanFilter::PriorSet(ColumnVector& X_prior,SymmetricMatrix& P_prior)
  {
  	PostMuSet( X_prior );
 	PostSigmaSet( P_prior );
+	P_prior.cholesky_semidefinite(JP);
  }
 void
   SRIteratedExtendedKalmanFilter::CalculateMeasUpdate(ColumnVector z, ColumnVector Z, Matrix H, SymmetricMatrix R)
diff --git a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
index 154cdc8..993211a 100644
--- a/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
+++ b/orocos_bfl/src/filter/SRiteratedextendedkalmanfilter.h
@@ -62,6 +62,10 @@ namespace BFL
 
       /// Destructor
       virtual ~SRIteratedExtendedKalmanFilter();
+
+      // implement virtual function of the base class
+      virtual void Reset(Pdf<MatrixWrapper::ColumnVector> * prior);
+
       /// Perform a system update with the current measurement model ans system model using an input u
       virtual void SysUpdate(SystemModel<MatrixWrapper::ColumnVector>* const sysmodel,
 			     const MatrixWrapper::ColumnVector& u);
-- 
2.43.0


From c28ff65e69b40091e910433bba60c140016ed46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:38 +0000
Subject: [PATCH 30/48] fix: conditional Gaussians whose dimension is set later
 (EKF proposal density) sampled into buffers of size zero

---
 orocos_bfl/src/pdf/conditionalgaussian.cpp | 11 +++++++++++
 orocos_bfl/src/pdf/conditionalgaussian.h   |  3 +++
 2 files changed, 14 insertions(+)

diff --git a/orocos_bfl/src/pdf/conditionalgaussian.cpp b/orocos_bfl/src/pdf/conditionalgaussian.cpp
index e1d9631..7c6ec90 100644
--- a/orocos_bfl/src/pdf/conditionalgaussian.cpp
+++ b/orocos_bfl/src/pdf/conditionalgaussian.cpp
@@ -44,6 +44,17 @@ namespace BFL
       return new ConditionalGaussian(*this);
   }
 
+  void
+  ConditionalGaussian::DimensionSet(unsigned int dim)
+  {
+    ConditionalPdf<ColumnVector,ColumnVector>::DimensionSet(dim);
+    _diff.resize(dim);
+    _Mu.resize(dim);
+    _Low_triangle.resize(dim,dim);
+    _samples.resize(dim);
+    _SampleValue.resize(dim);
+  }
+
   Probability
   ConditionalGaussian::ProbabilityGet(const ColumnVector& input) const
   {
diff --git a/orocos_bfl/src/pdf/conditionalgaussian.h b/orocos_bfl/src/pdf/conditionalgaussian.h
index d1d2b52..6fdfe75 100644
--- a/orocos_bfl/src/pdf/conditionalgaussian.h
+++ b/orocos_bfl/src/pdf/conditionalgaussian.h
@@ -62,6 +62,9 @@ namespace BFL
       virtual bool SampleFrom (std::vector<Sample<MatrixWrapper::ColumnVector> >& samples, const unsigned int num_samples,
 			       const SampleMthd method=SampleMthd::DEFAULT, void * args=NULL) const;
 
+      // redefinition of virtual function: also resizes the variables used during sampling
+      virtual void DimensionSet(unsigned int dim);
+
     protected:
       // variables to avoid allocation on the heap during sampling
       mutable ColumnVector _diff;
-- 
2.43.0


From 07b99af2ee04eff464d721f6aa3111970ba8b95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:23 +0000
Subject: [PATCH 31/48] fix: Rauch-Tung-Striebel smoother linearised the system
 around the smoothed state of the next time step

---
 orocos_bfl/src/smoother/rauchtungstriebel.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/smoother/rauchtungstriebel.cpp b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
index 2142169..2f6c6ec 100644
--- a/orocos_bfl/src/smoother/rauchtungstriebel.cpp
+++ b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
@@ -52,8 +52,9 @@ namespace BFL
   {
     _x = _post->ExpectedValueGet();
     _xf = filtered_post->ExpectedValueGet();
-    _F = ((AnalyticSys*)sysmodel)->df_dxGet(u,_x);
-    _Q = ((AnalyticSys*)sysmodel)->CovarianceGet(u,_x);
+    // the system is linearised around the filtered state, as in the forward pass
+    _F = ((AnalyticSys*)sysmodel)->df_dxGet(u,_xf);
+    _Q = ((AnalyticSys*)sysmodel)->CovarianceGet(u,_xf);
 
     _Ppred = _F * (Matrix)filtered_post->CovarianceGet() * _F.transpose() + (Matrix)_Q;
     _Pxx = (Matrix)filtered_post->CovarianceGet() * _F.transpose();
-- 
2.43.0


From 79ff9274cba3d48234982d31369663c0954d7e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:23 +0000
Subject: [PATCH 32/48] fix: Reset made the given prior the posterior of a
 smoother, which overwrote and later deleted the caller's object

---
 orocos_bfl/src/smoother/particlesmoother.cpp  | 9 +++++++++
 orocos_bfl/src/smoother/particlesmoother.h    | 3 +++
 orocos_bfl/src/smoother/rauchtungstriebel.cpp | 9 +++++++++
 orocos_bfl/src/smoother/rauchtungstriebel.h   | 3 +++
 4 files changed, 24 insertions(+)

diff --git a/orocos_bfl/src/smoother/particlesmoother.cpp b/orocos_bfl/src/smoother/particlesmoother.cpp
index 43d9b43..91fce38 100644
--- a/orocos_bfl/src/smoother/particlesmoother.cpp
+++ b/orocos_bfl/src/smoother/particlesmoother.cpp
@@ -41,6 +41,15 @@ ParticleSmoother<SV>::~ParticleSmoother()
     delete this->_post;
 }
 
+template <typename SV> void
+ParticleSmoother<SV>::Reset(Pdf<SV> * prior)
+{
+  MCPdf<SV> * post = new MCPdf<SV>(*dynamic_cast<MCPdf<SV> *>(prior));
+  delete this->_post;
+  this->_post = post;
+  this->_prior = prior;
+}
+
 template <typename SV> bool
 ParticleSmoother<SV>::UpdateInternal(SystemModel<StateVar>* const sysmodel, const StateVar& u,Pdf<StateVar>* const  filtered_post)
 {
diff --git a/orocos_bfl/src/smoother/particlesmoother.h b/orocos_bfl/src/smoother/particlesmoother.h
index 8ca3023..f5f71a8 100644
--- a/orocos_bfl/src/smoother/particlesmoother.h
+++ b/orocos_bfl/src/smoother/particlesmoother.h
@@ -76,6 +76,9 @@ namespace BFL
       /// Destructor
       virtual ~ParticleSmoother();
 
+      // implement virtual function of the base class
+      virtual void Reset(Pdf<StateVar> * prior);
+
     };
 #include "particlesmoother.cpp"
 
diff --git a/orocos_bfl/src/smoother/rauchtungstriebel.cpp b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
index 2f6c6ec..7e07a3f 100644
--- a/orocos_bfl/src/smoother/rauchtungstriebel.cpp
+++ b/orocos_bfl/src/smoother/rauchtungstriebel.cpp
@@ -47,6 +47,15 @@ namespace BFL
     delete _post;
   }
 
+  void
+  RauchTungStriebel::Reset(Pdf<ColumnVector> * prior)
+  {
+    Gaussian * post = new Gaussian(*dynamic_cast<Gaussian *>(prior));
+    delete _post;
+    _post = post;
+    _prior = prior;
+  }
+
   void
   RauchTungStriebel::SysUpdate(SystemModel<ColumnVector>* const sysmodel, const ColumnVector& u,  Pdf<ColumnVector>* const filtered_post)
   {
diff --git a/orocos_bfl/src/smoother/rauchtungstriebel.h b/orocos_bfl/src/smoother/rauchtungstriebel.h
index 52de535..5b97902 100644
--- a/orocos_bfl/src/smoother/rauchtungstriebel.h
+++ b/orocos_bfl/src/smoother/rauchtungstriebel.h
@@ -51,6 +51,9 @@ public:
   /// Destructor
   virtual ~RauchTungStriebel();
 
+  // implement virtual function of the base class
+  virtual void Reset(Pdf<MatrixWrapper::ColumnVector> * prior);
+
 protected:
 
   /// Set covariance of posterior estimate
-- 
2.43.0


From 19b3c2780f30d5a30fa1da19b59add3b8c2c60fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:36 +0000
Subject: [PATCH 33/48] fix: ParticleSmoother mixed up smoothed and filtered
 samples, read outside its matrix for different sample numbers and summed into
 an uninitialised variable

---
 orocos_bfl/src/smoother/particlesmoother.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/orocos_bfl/src/smoother/particlesmoother.cpp b/orocos_bfl/src/smoother/particlesmoother.cpp
index 91fce38..d8ee3ba 100644
--- a/orocos_bfl/src/smoother/particlesmoother.cpp
+++ b/orocos_bfl/src/smoother/particlesmoother.cpp
@@ -88,10 +88,10 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
                 prob(i,j) = sysmodel->ProbabilityGet(x_smo,x_fil);
               }
               gamma_loc = gamma_loc + _fs_it->WeightGet() * prob(i,j);
-              // calculate correction factors
-              gamma[j-1] = gamma_loc;
               j++;
              }
+      // calculate correction factors
+      gamma[i-1] = gamma_loc;
       i++;
       }
       //cout << "probabilities " << prob << endl;
@@ -99,7 +99,7 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
       _new_samples = _filtered_samples;
       // new weights for filtered samples
       i = 1 ;
-      double tot_weight; // sum of weights needed to normalize
+      double tot_weight = 0.0; // sum of weights needed to normalize
       vector<double> weight (_new_samples.size()); // vector of weights of particles
       for ( _ns_it=_new_samples.begin(); _ns_it != _new_samples.end() ; _ns_it++)
         {
@@ -108,7 +108,7 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
           for (_os_it = _old_samples.begin(); _os_it !=_old_samples.end() ; _os_it++)
           {
               if (gamma[j-1]!=0){
-                  delta = delta + _os_it->WeightGet() * prob(i,j) / gamma[j-1];
+                  delta = delta + _os_it->WeightGet() * prob(j,i) / gamma[j-1];
               }
               else{}
               j++;
-- 
2.43.0


From 09a7a2da4b8418a7b288874a689c3c38baedc6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:36 +0000
Subject: [PATCH 34/48] fix: ParticleSmoother reported success and left invalid
 weights when no filtered sample explains the smoothed ones; debug output

---
 orocos_bfl/src/smoother/particlesmoother.cpp | 12 +++++-------
 orocos_bfl/src/smoother/particlesmoother.h   |  2 +-
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/orocos_bfl/src/smoother/particlesmoother.cpp b/orocos_bfl/src/smoother/particlesmoother.cpp
index d8ee3ba..8aa667c 100644
--- a/orocos_bfl/src/smoother/particlesmoother.cpp
+++ b/orocos_bfl/src/smoother/particlesmoother.cpp
@@ -53,13 +53,10 @@ ParticleSmoother<SV>::Reset(Pdf<SV> * prior)
 template <typename SV> bool
 ParticleSmoother<SV>::UpdateInternal(SystemModel<StateVar>* const sysmodel, const StateVar& u,Pdf<StateVar>* const  filtered_post)
 {
-  cout << "update started" << endl;
-  SysUpdate(sysmodel,u,filtered_post);
-  cout << "update fininshed" << endl;
-  return true;
+  return SysUpdate(sysmodel,u,filtered_post);
 }
 
-template <typename SV> void
+template <typename SV> bool
 ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const StateVar& u,  Pdf<StateVar>* const filtered_post)
 {
     // Get all samples from the filtered posterior
@@ -119,6 +116,8 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
           tot_weight = tot_weight + weight[i-1];
           i++;
         }
+      // no filtered sample explains any of the smoothed samples
+      if (!(tot_weight > 0)) return false;
     // Normalize the weights
       i = 1;
       for ( _ns_it=_new_samples.begin(); _ns_it != _new_samples.end() ; _ns_it++)
@@ -128,6 +127,5 @@ ParticleSmoother<SV>::SysUpdate(SystemModel<StateVar>* const sysmodel, const Sta
         }
 
     // Update the list of samples
-    (dynamic_cast<MCPdf<SV> *>(this->_post))->ListOfSamplesSet(_new_samples);
-
+    return (dynamic_cast<MCPdf<SV> *>(this->_post))->ListOfSamplesSet(_new_samples);
 }
diff --git a/orocos_bfl/src/smoother/particlesmoother.h b/orocos_bfl/src/smoother/particlesmoother.h
index f5f71a8..6a0ef75 100644
--- a/orocos_bfl/src/smoother/particlesmoother.h
+++ b/orocos_bfl/src/smoother/particlesmoother.h
@@ -54,7 +54,7 @@ namespace BFL
       virtual bool UpdateInternal(SystemModel<StateVar>* const sysmodel,
 	    			  const StateVar& u, Pdf<StateVar>* const filtered_post);
 
-      virtual void SysUpdate(SystemModel<StateVar>* const sysmodel, const StateVar& u , Pdf<StateVar>* const filtered_post);
+      virtual bool SysUpdate(SystemModel<StateVar>* const sysmodel, const StateVar& u , Pdf<StateVar>* const filtered_post);
 
       /// While updating store list of old samples
       vector<WeightedSample<StateVar> > _old_samples;
-- 
2.43.0


From a5cd4f1407f3cab557934efb3f43e58041ec52a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:25 +0000
Subject: [PATCH 35/48] fix: a model constructed without density had an
 uninitialised density pointer

---
 orocos_bfl/src/model/measurementmodel.cpp | 2 ++
 orocos_bfl/src/model/systemmodel.cpp      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/orocos_bfl/src/model/measurementmodel.cpp b/orocos_bfl/src/model/measurementmodel.cpp
index ecda9a7..f9f7772 100644
--- a/orocos_bfl/src/model/measurementmodel.cpp
+++ b/orocos_bfl/src/model/measurementmodel.cpp
@@ -24,6 +24,8 @@ using namespace std;
 // Constructor
 template<typename MeasVar, typename StateVar>
 MeasurementModel<MeasVar,StateVar>::MeasurementModel(ConditionalPdf<MeasVar,StateVar>* measurementpdf)
+  : _MeasurementPdf(NULL)
+  , _systemWithoutSensorParams(true)
 {
 #ifdef __CONSTRUCTOR__
   cout << "MeasurementModel::Constructor" << endl;
diff --git a/orocos_bfl/src/model/systemmodel.cpp b/orocos_bfl/src/model/systemmodel.cpp
index 6d2d9e8..9488d0b 100644
--- a/orocos_bfl/src/model/systemmodel.cpp
+++ b/orocos_bfl/src/model/systemmodel.cpp
@@ -19,6 +19,8 @@
 
 // Constructor
 template<typename T> SystemModel<T>::SystemModel(ConditionalPdf<T,T>* systempdf)
+  : _SystemPdf(NULL)
+  , _systemWithoutInputs(true)
 {
 #ifdef __CONSTRUCTOR__
   cout << "SystemModel::Constructor" << endl;
-- 
2.43.0


From 87e00fdbfab89c46108087c28824673211d02442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:14 +0000
Subject: [PATCH 36/48] fix: boost vectors: assign() wrote past the end and
 skipped the first element

---
 orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
index 51d2f11..478ddf4 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_BOOST.cpp
@@ -67,7 +67,7 @@ void MyColumnVector::assign(int num_rows, double value)
   BoostColumnVector & op1 = (*this);
   op1.resize(num_rows);
   for (unsigned int i=0; i<num_rows; i++)
-    op1(i+1) = value;
+    op1(i) = value;
 }
 
 // Number of Rows / Cols
@@ -275,7 +275,7 @@ void MyRowVector::assign(int num_columns, double value)
   BoostRowVector & op1 = (*this);
   op1.resize(num_columns);
   for (unsigned int i=0; i<num_columns; i++)
-    op1(i+1) = value;
+    op1(i) = value;
 }
 
 // Number of Rows / Cols
-- 
2.43.0


From f5247381921a5a6e9401efb44007fdd932712779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:19 +0000
Subject: [PATCH 37/48] fix: eigen: convertToSymmetricMatrix copied the upper
 instead of the documented lower triangle

---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 2 +-
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index 533ca6f..ce6c0cb 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -224,7 +224,7 @@ MyMatrix::convertToSymmetricMatrix(MySymmetricMatrix& sym)
   assert(this->rows() == this->columns());
 
   const EigenMatrix & A = (EigenMatrix &) (*this);
-  sym = MySymmetricMatrix(A.selfadjointView<Eigen::Upper>());
+  sym = MySymmetricMatrix(A.selfadjointView<Eigen::Lower>());
   return 0;
 }
 
diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.h b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.h
index c06db5f..858b499 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.h
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.h
@@ -12,7 +12,7 @@
 
 typedef Eigen::MatrixXd EigenMatrix;
 typedef Eigen::MatrixXd EigenSymmetricMatrix;
-typedef Eigen::MatrixXd::ConstSelfAdjointViewReturnType<Eigen::Upper>::Type EigenSymmetricView;
+typedef Eigen::MatrixXd::ConstSelfAdjointViewReturnType<Eigen::Lower>::Type EigenSymmetricView;
 
 namespace MatrixWrapper
 {
-- 
2.43.0


From f1baa0340b189019f9f33dc76505fd32c0b10dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:19 +0000
Subject: [PATCH 38/48] fix: eigen: rowCopy and columnCopy counted from 0,
 unlike all other indices and the boost implementation

---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index ce6c0cb..6dce137 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -182,12 +182,12 @@ MyMatrix&
 
 MyRowVector MyMatrix::rowCopy(unsigned int r) const
 {
-  return (MyRowVector) (*this).row(r);
+  return (MyRowVector) (*this).row(r-1);
 }
 
 MyColumnVector MyMatrix::columnCopy(unsigned int c) const
 {
-  return (MyColumnVector) (*this).col(c);
+  return (MyColumnVector) (*this).col(c-1);
 }
 
 
-- 
2.43.0


From 106713f85865e938d20331a42c96d8a9ec086151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:19 +0000
Subject: [PATCH 39/48] fix: eigen: vectorAdd of row vectors used the number of
 rows

---
 orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
index 0380eef..e9bf425 100644
--- a/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/vector_EIGEN.cpp
@@ -244,10 +244,10 @@ MyRowVector
 MyRowVector::vectorAdd(const MyRowVector& v2) const
 {
   const MyRowVector& v1 = *this;
-  MyRowVector res(v1.rows() + v2.rows());
+  MyRowVector res(v1.columns() + v2.columns());
   EigenRowVector& opl = res;
-  opl.head(v1.rows()) = (const EigenRowVector &)(v1);
-  opl.tail(v2.rows()) = (const EigenRowVector &)(v2);
+  opl.head(v1.columns()) = (const EigenRowVector &)(v1);
+  opl.tail(v2.columns()) = (const EigenRowVector &)(v2);
   return res;
 }
 
-- 
2.43.0


From 468f42d79ffad244a80ed3e0106a70d507902a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:19 +0000
Subject: [PATCH 40/48] fix: eigen: resize lost the contents of matrices
 although asked to copy them

---
 orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
index 6dce137..9c5b554 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_EIGEN.cpp
@@ -232,7 +232,8 @@ void
 MyMatrix::resize(unsigned int i, unsigned int j, bool copy, bool initialize)
 {
   EigenMatrix & temp = (EigenMatrix &) (*this);
-  temp.resize(i,j);
+  if (copy) temp.conservativeResizeLike(EigenMatrix::Zero(i,j));
+  else temp.resize(i,j);
 }
 
 // get sub matrix
@@ -505,7 +506,8 @@ void
 MySymmetricMatrix::resize(unsigned int i, bool copy, bool initialize)
 {
   EigenSymmetricMatrix & temp = (EigenSymmetricMatrix &) (*this);
-  temp.resize(i,i);
+  if (copy) temp.conservativeResizeLike(EigenSymmetricMatrix::Zero(i,i));
+  else temp.resize(i,i);
 }
 
 
-- 
2.43.0


From 503616a59619bdec89e5c1186c7422fdf7b897cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:15 +0000
Subject: [PATCH 41/48] fix: boost: determinant of a singular matrix of 3 or
 more rows aborted instead of returning 0

---
 orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
index dbd1d2e..b55c94b 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_BOOST.cpp
@@ -243,7 +243,7 @@ double MyMatrix::determinant() const
             boost::numeric::ublas::permutation_matrix<> ndx(r);
             noalias(LU) = A;
             int res = lu_factorize(LU,ndx);
-            assert(res == 0);
+            if (res != 0) return 0.0; // singular
 
             int s = 1;
             for (boost::numeric::ublas::matrix<double>::size_type i=0;i<LU.size1();++i) {
@@ -434,7 +434,7 @@ double MySymmetricMatrix::determinant() const
         boost::numeric::ublas::permutation_matrix<> ndx(r);
         noalias(LU) = A;
         int res = lu_factorize(LU,ndx);
-        assert(res == 0);
+        if (res != 0) return 0.0; // singular
 
         double result = 1.0;
         int s = 1;
-- 
2.43.0


From ea1204a40b3a576b8cd005f1a2c72745d2616dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:16:09 +0000
Subject: [PATCH 42/48] fix: cholesky_semidefinite refused positive
 semidefinite matrices because of rounding

---
 orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp b/orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp
index 4ed9fe3..72fde9a 100644
--- a/orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp
+++ b/orocos_bfl/src/wrappers/matrix/matrix_wrapper.cpp
@@ -17,7 +17,11 @@ namespace MatrixWrapper
         int sz = a.rows();
           for (int k=1; k<sz+1; ++k) {
            // check if close to zero => put to zero
-           if (a(k,k)< std::numeric_limits<double>::epsilon() && a(k,k)> -std::numeric_limits<double>::epsilon()){
+           // (the rounding error of the pivot is relative to the original diagonal element)
+           double tolerance = std::numeric_limits<double>::epsilon();
+           double rounding = 4*sz*tolerance*fabs(((MySymmetricMatrix*)this)->operator()(k,k));
+           if (rounding > tolerance) tolerance = rounding;
+           if (a(k,k)< tolerance && a(k,k)> -tolerance){
                    a(k,k) = 0.0; //set to zero, matrix is semidefinite
            }
            if (a(k,k) < 0.0) {
-- 
2.43.0


From e96fdb29dab555c5e9d56663dc0c1bdc20f086cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:00 +0000
Subject: [PATCH 43/48] fix: GiNaC models took their density for a model when
 asked for function and symbols, and crashed

---
 ...analyticmeasurementmodel_gaussianuncertainty_ginac.cpp | 8 ++++----
 ...inearanalyticsystemmodel_gaussianuncertainty_ginac.cpp | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
index ce0af27..9514d3d 100644
--- a/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
+++ b/orocos_bfl/src/model/nonlinearanalyticmeasurementmodel_gaussianuncertainty_ginac.cpp
@@ -81,25 +81,25 @@ namespace BFL
   GiNaC::matrix
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::FunctionGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *) MeasurementPdfGet())->FunctionGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) MeasurementPdfGet())->FunctionGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::StateGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *)MeasurementPdfGet())->StateGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *)MeasurementPdfGet())->StateGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::InputGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *) MeasurementPdfGet())->InputGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) MeasurementPdfGet())->InputGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac::ConditionalGet()
   {
-    return ((NonLinearAnalyticMeasurementModelGaussianUncertainty_Ginac *) MeasurementPdfGet())->ConditionalGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) MeasurementPdfGet())->ConditionalGet();
   }
 
 } // End namespace BFL
diff --git a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
index bb0500f..a844cab 100644
--- a/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
+++ b/orocos_bfl/src/model/nonlinearanalyticsystemmodel_gaussianuncertainty_ginac.cpp
@@ -47,19 +47,19 @@ namespace BFL
   GiNaC::matrix
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::FunctionGet()
   {
-    return ((NonLinearAnalyticSystemModelGaussianUncertainty_Ginac *) SystemPdfGet())->FunctionGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) SystemPdfGet())->FunctionGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::StateGet()
   {
-    return ((NonLinearAnalyticSystemModelGaussianUncertainty_Ginac *)SystemPdfGet())->StateGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *)SystemPdfGet())->StateGet();
   }
 
   vector<GiNaC::symbol>
   NonLinearAnalyticSystemModelGaussianUncertainty_Ginac::InputGet()
   {
-    return ((NonLinearAnalyticSystemModelGaussianUncertainty_Ginac *) SystemPdfGet())->InputGet();
+    return ((NonLinearAnalyticConditionalGaussian_Ginac *) SystemPdfGet())->InputGet();
   }
 
 
-- 
2.43.0


From 1e1af8b863070e42d4236d0935f4dbe94ef15848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:00 +0000
Subject: [PATCH 44/48] fix: copies of GiNaC densities lost the values of state
 and input and crashed when asked for the mean

---
 .../src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
index 4199b91..4180718 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
@@ -99,6 +99,10 @@ namespace BFL
     assert (func_sym.cols() == 1);
     if (cond_size!=0) assert (g.AdditiveNoiseSigmaGet().rows() == cond_size);
 
+    // copy the values of state and input
+    for (unsigned int i=0; i < 2; i++)
+      ConditionalArgumentSet(i, g.ConditionalArgumentGet(i));
+
     // derive func to cond
     for (unsigned int i=0; i<cond_size; i++)
       dfunc_dcond[i] = func_sym.diff(cond_sym[i]);
-- 
2.43.0


From bdc855be5ad5d0d34babce1bffbfe927fb308a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:00 +0000
Subject: [PATCH 45/48] fix: GiNaC densities with noise on parameters had the
 dimension of the noise instead of that of the function

---
 .../src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
index 4180718..beca8ea 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
@@ -48,6 +48,9 @@ namespace BFL
     assert (func_sym.cols() == 1);
     assert (additiveNoise.DimensionGet() == cond_size);
 
+    // the dimension is that of the function, not that of the noise
+    DimensionSet(func_size);
+
     // derive func to cond
     for (unsigned int i=0; i < cond_size; i++)
       dfunc_dcond[i] = func_sym.diff(cond_sym[i]);
@@ -99,6 +102,9 @@ namespace BFL
     assert (func_sym.cols() == 1);
     if (cond_size!=0) assert (g.AdditiveNoiseSigmaGet().rows() == cond_size);
 
+    // the dimension is that of the function, not that of the noise
+    DimensionSet(func_size);
+
     // copy the values of state and input
     for (unsigned int i=0; i < 2; i++)
       ConditionalArgumentSet(i, g.ConditionalArgumentGet(i));
-- 
2.43.0


From f77019129f2fad5a5d9f0de6b451c8aab6f2608e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:15 +0000
Subject: [PATCH 46/48] fix: GiNaC densities with noise on parameters
 linearised beside the point where they evaluate the mean

---
 .../nonlinearanalyticconditionalgaussian_ginac.cpp   | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
index beca8ea..2e1600b 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
@@ -193,6 +193,12 @@ namespace BFL
 	u_num = ConditionalArgumentGet(1);
 	x_num = ConditionalArgumentGet(0);
 
+	// linearise around the mean of the noise
+	for (unsigned int i=0; i<u_size; i++)
+	  for (unsigned int j=0; j<cond_size; j++)
+	    if (u_sym[i] == cond_sym[j])
+	      u_num(i+1) += (this->AdditiveNoiseMuGet())(j+1);
+
 	for (unsigned int i=0; i<cond_size; i++)
 	  {
 	    // temp variable to substitute in
@@ -245,6 +251,12 @@ namespace BFL
     u_num = ConditionalArgumentGet(1);
     x_num = ConditionalArgumentGet(0);
 
+    // linearise around the mean of the noise
+    for (unsigned int i=0; i<u_size; i++)
+      for (unsigned int j=0; j<cond_size; j++)
+	if (u_sym[i] == cond_sym[j])
+	  u_num(i+1) += (this->AdditiveNoiseMuGet())(j+1);
+
     // numeric evaluation of derivative: dfunc_dx = F
     for (unsigned int i=0; i<x_size; i++)
       {
-- 
2.43.0


From fff2a9b74fd74ca13c587b24c4c5289717d6f76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:15 +0000
Subject: [PATCH 47/48] fix: clones of GiNaC densities were not GiNaC densities
 and exited when asked for the mean

---
 .../src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp | 7 +++++++
 .../src/pdf/nonlinearanalyticconditionalgaussian_ginac.h   | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
index 2e1600b..b206ff5 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.cpp
@@ -123,6 +123,13 @@ namespace BFL
   {}
 
 
+  //Clone function
+  NonLinearAnalyticConditionalGaussian_Ginac*
+  NonLinearAnalyticConditionalGaussian_Ginac::Clone() const
+  {
+      return new NonLinearAnalyticConditionalGaussian_Ginac(*this);
+  }
+
   std::ostream& operator<< (std::ostream& os, NonLinearAnalyticConditionalGaussian_Ginac& p)
   {
     os << "function:    " << p.func_size << endl;
diff --git a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
index 6c15bc4..1c2d077 100644
--- a/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
+++ b/orocos_bfl/src/pdf/nonlinearanalyticconditionalgaussian_ginac.h
@@ -82,6 +82,9 @@ namespace BFL
       /// Destructor
       virtual ~NonLinearAnalyticConditionalGaussian_Ginac();
 
+      ///Clone function
+      virtual NonLinearAnalyticConditionalGaussian_Ginac* Clone() const;
+
       /// output stream for measurement model
       friend std::ostream& operator<< (std::ostream& os, NonLinearAnalyticConditionalGaussian_Ginac& p);
 
-- 
2.43.0


From dfd5e355b18a90cc68d36003c09346d3c3bda4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:38 +0000
Subject: [PATCH 48/48] fix: a Uniform whose dimension is set by UniformSet
 sampled into a buffer of size zero

---
 orocos_bfl/src/pdf/uniform.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/orocos_bfl/src/pdf/uniform.cpp b/orocos_bfl/src/pdf/uniform.cpp
index 914cd7d..7fd1ce5 100644
--- a/orocos_bfl/src/pdf/uniform.cpp
+++ b/orocos_bfl/src/pdf/uniform.cpp
@@ -136,7 +136,11 @@ namespace BFL
     {
         _Height = _Height / width(i);
     }
-    if (this->DimensionGet() == 0) this->DimensionSet(center.rows());
+    if (this->DimensionGet() == 0)
+    {
+        this->DimensionSet(center.rows());
+        _samples.resize(center.rows());
+    }
     assert(this->DimensionGet() == center.rows());
   }
 
-- 
2.43.0

