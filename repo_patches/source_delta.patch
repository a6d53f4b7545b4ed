From 72bcdd27334b02eb22569bef7f3a4c86f2691bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 01/76] fix: stop header parsing at BEGIN_STREAM

A binary data file whose first data byte was a hash sign was taken for
a further header line, so that a correctly saved file could not be loaded.
---
 sources/core/args.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/core/args.h b/sources/core/args.h
index 15ee362..ff87908 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -504,6 +504,12 @@ class arguments
 
 								getline(linestream, data, '\r');
 								args.update(key, data) ;
+
+								// What follows '#BEGIN_STREAM' is binary data, even if
+								// its first byte happens to be a hash sign.
+								if (key == "BEGIN_STREAM") {
+									break;
+								}
 							}
 						}
 					}
-- 
2.43.0


From ca64b220d9684e5c148a5eb3dc010aee47a98501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 02/76] fix: save the output parametrization of functions

---
 sources/core/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 1534a1e..c2f60e4 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -136,7 +136,7 @@ void function::save_header(std::ostream& out, const arguments& args) const
 		out << "#CMD " << args.get_cmd() << std::endl;
 		out << "#DIM " << parametrization().dimX() << " " << parametrization().dimY() << std::endl;
 		out << "#PARAM_IN  " << params::get_name(parametrization().input_parametrization()) << std::endl;
-		//out << "#PARAM_OUT " << params::get_name(output_parametrization()) << std::endl;*
+		out << "#PARAM_OUT " << params::get_name(parametrization().output_parametrization()) << std::endl;
 		if(args.is_defined("export-append")) 
 		{
 			out << args["export-append"] << std::endl;
-- 
2.43.0


From 22846629d1bf4a41fa95edb573c6b10fedaa4335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 03/76] fix: write the header when exporting explicitly to the
 alta format

---
 sources/core/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index c2f60e4..db66d48 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -130,7 +130,7 @@ void function::save(const std::string& filename, const arguments& args) const
 //! the dimension of the fit. L2 and L_inf distance could be added here.
 void function::save_header(std::ostream& out, const arguments& args) const
 {
-	if(!args.is_defined("export"))
+	if(!args.is_defined("export") || args["export"] == "alta")
 	{
 		out << "#ALTA FUNC HEADER" << std::endl;
 		out << "#CMD " << args.get_cmd() << std::endl;
@@ -331,7 +331,7 @@ bool nonlinear_function::load(std::istream& in)
 
 void nonlinear_function::save_call(std::ostream& out, const arguments& args) const
 {
-	if(!args.is_defined("export"))
+	if(!args.is_defined("export") || args["export"] == "alta")
 	{
 		// Dump a #FUNC nonlinear
 		out << "#FUNC nonlinear_function" << std::endl;
-- 
2.43.0


From 61e6a70f09bc5ea76b8fcc674b5441a3a95953f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 04/76] fix: allocate the parameters of the normalized Schlick
 Fresnel

---
 .../plugins/nonlinear_fresnel_normalized_schlick/function.cpp    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index 1adffad..f04da10 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -29,6 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 schlick::schlick(const alta::parameters& params):
     nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
+    R.resize(params.dimY());
 }
 
 //! Load function specific files
-- 
2.43.0


From e09e22f7d139645973f9456878fc817a664a586e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 05/76] fix: load retro Beckmann lobes with the type they were
 saved with

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 3498d86..96de87d 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -227,11 +227,11 @@ bool beckmann_function::load(std::istream& in)
 	in >> token;
 	if(token.compare("RETRO") != 0) 
 	{ 
-		_use_back_param = false;
+		_use_back_param = true;
 	}
 	else
 	{
-		_use_back_param = true;
+		_use_back_param = false;
 	}
 
 
-- 
2.43.0


From 0331866eda0599217624a64204bc5d5608cc48fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 06/76] fix: load the exponent of every lobe of a Lafortune
 function

---
 sources/plugins/nonlinear_function_lafortune/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index d5a8033..5feed57 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -416,7 +416,7 @@ bool lafortune_function::load(std::istream& in)
 			in >> token >> _C[(n*_nY + i)*3 + 0];
             in >> token >> _C[(n*_nY + i)*3 + 1];
 			in >> token >> _C[(n*_nY + i)*3 + 2];
-			in >> token >> _N[i];
+			in >> token >> _N[n*_nY + i];
 		}
 
 	}
-- 
2.43.0


From 198d7cbc50684de2f484708becce975b8e6202cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:24 +0000
Subject: [PATCH 07/76] fix: initialise the lobe count of Lafortune functions

---
 sources/plugins/nonlinear_function_lafortune/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 5feed57..858a8a3 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -29,7 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 }
 
 lafortune_function::lafortune_function(const alta::parameters& params) :
-    nonlinear_function(params)
+    nonlinear_function(params), _n(1), _isotropic(false)
 {
     auto nY = params.dimY();
 
-- 
2.43.0


From e075a199b675477dde21e2d53c99c8c75c0ef88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:16 +0000
Subject: [PATCH 08/76] fix: give the retro Beckmann class a name of its own
 (it clashed with the Beckmann plugin)

---
 .../function.cpp                              | 26 +++++++++----------
 .../function.h                                |  6 ++---
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 96de87d..f895cbd 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -24,10 +24,10 @@ using namespace alta;
 
 ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 {
-    return new beckmann_function(params);
+    return new retrobeckmann_function(params);
 }
 
-beckmann_function::beckmann_function(const alta::parameters& params)
+retrobeckmann_function::retrobeckmann_function(const alta::parameters& params)
     : nonlinear_function(params.set_input(6, params::CARTESIAN)),
       _use_back_param(true)
 {
@@ -38,11 +38,11 @@ beckmann_function::beckmann_function(const alta::parameters& params)
 
 
 // Overload the function operator
-vec beckmann_function::operator()(const vec& x) const 
+vec retrobeckmann_function::operator()(const vec& x) const 
 {
 	return value(x);
 }
-vec beckmann_function::value(const vec& x) const 
+vec retrobeckmann_function::value(const vec& x) const 
 {
 	double dot;
 	if(_use_back_param)
@@ -78,13 +78,13 @@ vec beckmann_function::value(const vec& x) const
 }
 
 //! Number of parameters to this non-linear function
-int beckmann_function::nbParameters() const 
+int retrobeckmann_function::nbParameters() const 
 {
 	return 2*_parameters.dimY();
 }
 
 //! Get the vector of parameters for the function
-vec beckmann_function::parameters() const 
+vec retrobeckmann_function::parameters() const 
 {
 	vec res(2*_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
@@ -96,7 +96,7 @@ vec beckmann_function::parameters() const
 }
 
 //! \brief get the min values for the parameters
-vec beckmann_function::getParametersMin() const
+vec retrobeckmann_function::getParametersMin() const
 {
 	vec res(2*_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
@@ -109,7 +109,7 @@ vec beckmann_function::getParametersMin() const
 }
 
 //! Update the vector of parameters for the function
-void beckmann_function::setParameters(const vec& p) 
+void retrobeckmann_function::setParameters(const vec& p) 
 {
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
@@ -121,7 +121,7 @@ void beckmann_function::setParameters(const vec& p)
 //! Obtain the derivatives of the function with respect to the 
 //! parameters
 //! \todo finish. 
-vec beckmann_function::parametersJacobian(const vec& x) const 
+vec retrobeckmann_function::parametersJacobian(const vec& x) const 
 {
 	double dot;
 	if(_use_back_param)
@@ -165,7 +165,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
     return jac;
 }
 		
-void beckmann_function::bootstrap(const ptr<data> d, const arguments& args)
+void retrobeckmann_function::bootstrap(const ptr<data> d, const arguments& args)
 {
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
@@ -184,7 +184,7 @@ void beckmann_function::bootstrap(const ptr<data> d, const arguments& args)
 }
 
 //! Load function specific files
-bool beckmann_function::load(std::istream& in)
+bool retrobeckmann_function::load(std::istream& in)
 {
 	// Parse line until the next comment
 	while(in.peek() != '#')
@@ -246,7 +246,7 @@ bool beckmann_function::load(std::istream& in)
 }
 
 
-void beckmann_function::save_call(std::ostream& out, const arguments& args) const
+void retrobeckmann_function::save_call(std::ostream& out, const arguments& args) const
 {
 	bool is_alta   = !args.is_defined("export") || args["export"] == "alta";
 
@@ -284,7 +284,7 @@ void beckmann_function::save_call(std::ostream& out, const arguments& args) cons
 	}
 }
 
-void beckmann_function::save_body(std::ostream& out, const arguments& args) const
+void retrobeckmann_function::save_body(std::ostream& out, const arguments& args) const
 {
     bool is_shader = args["export"] == "shader" || args["export"] == "explorer";
 
diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.h b/sources/plugins/nonlinear_function_retrobeckmann/function.h
index 0640881..768bcca 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.h
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.h
@@ -36,12 +36,12 @@ using namespace alta;
  *
  *  \author Laurent Belcour \<laurent.belcour@umontreal.ca\>
  */
-class beckmann_function : public nonlinear_function
+class retrobeckmann_function : public nonlinear_function
 {
 
 	public: // methods
 
-    beckmann_function(const alta::parameters& params);
+    retrobeckmann_function(const alta::parameters& params);
 
 		// Overload the function operator
 		virtual vec operator()(const vec& x) const ;
@@ -80,6 +80,6 @@ class beckmann_function : public nonlinear_function
 		vec _ks, _a; // Lobes data
 		bool _use_back_param;
 
-    beckmann_function() {};
+    retrobeckmann_function() {};
 } ;
 
-- 
2.43.0


From bac71eadc4ec2a4323b3bc13acd9d0eb2f3c4008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:23 +0000
Subject: [PATCH 09/76] fix: give the cosine rational function classes names of
 their own (they clashed with the Legendre plugin)

---
 .../rational_function.cpp                     | 14 +++++------
 .../rational_function.h                       | 24 +++++++++----------
 2 files changed, 19 insertions(+), 19 deletions(-)

diff --git a/sources/plugins/rational_function_cosine/rational_function.cpp b/sources/plugins/rational_function_cosine/rational_function.cpp
index 797091a..c0771fc 100644
--- a/sources/plugins/rational_function_cosine/rational_function.cpp
+++ b/sources/plugins/rational_function_cosine/rational_function.cpp
@@ -18,16 +18,16 @@ using namespace alta;
 
 ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 {
-    return new rational_function_legendre(params);
+    return new rational_function_cosine(params);
 }
 
-rational_function_legendre_1d::rational_function_legendre_1d(const parameters& params,
+rational_function_cosine_1d::rational_function_cosine_1d(const parameters& params,
                                                              int np, int nq)
     : rational_function_1d(params, np, nq)
 {
 }
 
-double rational_function_legendre_1d::legendre(double x, int i) const
+double rational_function_cosine_1d::legendre(double x, int i) const
 {
 	if(i == 0)
 	{
@@ -68,7 +68,7 @@ double rational_function_legendre_1d::legendre(double x, int i) const
 }
 
 // Get the p_i and q_j function
-double rational_function_legendre_1d::p(const vec& x, int i) const
+double rational_function_cosine_1d::p(const vec& x, int i) const
 {
 	std::vector<int> deg = index2degree(i);
 	double res = 1.0;
@@ -90,7 +90,7 @@ double rational_function_legendre_1d::p(const vec& x, int i) const
 
 	return res ;
 }
-double rational_function_legendre_1d::q(const vec& x, int i) const 
+double rational_function_cosine_1d::q(const vec& x, int i) const 
 {
 	std::vector<int> deg = index2degree(i);
 	double res = 1.0;
@@ -102,12 +102,12 @@ double rational_function_legendre_1d::q(const vec& x, int i) const
 	return res ;
 }
 
-rational_function_legendre::rational_function_legendre(const parameters& params)
+rational_function_cosine::rational_function_cosine(const parameters& params)
     : rational_function(params)
 {
 }
 
-rational_function_legendre::~rational_function_legendre()
+rational_function_cosine::~rational_function_cosine()
 {
 }
 
diff --git a/sources/plugins/rational_function_cosine/rational_function.h b/sources/plugins/rational_function_cosine/rational_function.h
index 4a37b12..d58740b 100644
--- a/sources/plugins/rational_function_cosine/rational_function.h
+++ b/sources/plugins/rational_function_cosine/rational_function.h
@@ -24,13 +24,13 @@
 
 using namespace alta;
 
-class rational_function_legendre_1d : public rational_function_1d
+class rational_function_cosine_1d : public rational_function_1d
 {
 	public: // methods
 
-    rational_function_legendre_1d(const parameters& params,
+    rational_function_cosine_1d(const parameters& params,
                                   int np = 0, int nq = 0);
-		virtual ~rational_function_legendre_1d() {}
+		virtual ~rational_function_cosine_1d() {}
 
 		// Get the p_i and q_j function
 		virtual double p(const vec& x, int i) const ;
@@ -42,7 +42,7 @@ class rational_function_legendre_1d : public rational_function_1d
 		double legendre(double x, int i) const;
 
   private:
-		rational_function_legendre_1d() ;
+		rational_function_cosine_1d() ;
 } ;
 
 /*! \ingroup functions
@@ -59,13 +59,13 @@ class rational_function_legendre_1d : public rational_function_1d
  *
  *  \author Laurent Belcour \<laurent.belcour@umontreal.ca\>
  */
-class rational_function_legendre : public rational_function
+class rational_function_cosine : public rational_function
 {
 	public: // methods
 
-    rational_function_legendre(const parameters& params);
+    rational_function_cosine(const parameters& params);
 
-		virtual ~rational_function_legendre() ;
+		virtual ~rational_function_cosine() ;
 
 		//! Get the 1D function associated with color channel i. If no one exist, 
 		//! this function allocates a new element. If i > nY, it returns NULL.
@@ -76,7 +76,7 @@ class rational_function_legendre : public rational_function
 			{
 				if(rs[i] == NULL)
 				{
-          rs[i] = new rational_function_legendre_1d(_parameters, np, nq);
+          rs[i] = new rational_function_cosine_1d(_parameters, np, nq);
 
 					vec _min = min();
 					vec _max = max();
@@ -104,22 +104,22 @@ class rational_function_legendre : public rational_function
 
 		//! Update the y-1D function for the ith dimension.
 		//! \note It will test if the 1D function provided is of the dynamic type
-		//! \name rational_function_legendre_1d
+		//! \name rational_function_cosine_1d
 		virtual void update(int i, rational_function_1d* r)
 		{
-			if(dynamic_cast<rational_function_legendre_1d*>(r) != NULL)
+			if(dynamic_cast<rational_function_cosine_1d*>(r) != NULL)
 			{
 				rational_function::update(i, r);
 			}
 			else
 			{
 #ifdef DEBUG
-				std::cerr << "<<ERROR>> the function provided is not of type \"rational_function_legendre\"" << std::endl;
+				std::cerr << "<<ERROR>> the function provided is not of type \"rational_function_cosine\"" << std::endl;
 #endif
 			}
 		}
 
 private:
-		rational_function_legendre() {};
+		rational_function_cosine() {};
 } ;
 
-- 
2.43.0


From 271035767bc63e9d2c9a4e947d9388426b19e330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 10/76] fix: save retro Yoo lobes in the format their loader
 reads

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 8236e32..8691408 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -187,7 +187,6 @@ void yoo_function::save_call(std::ostream& out, const arguments& args) const
 	if(is_alta)
 	{
 		out << "#FUNC nonlinear_function_retroyoo" << std::endl ;
-		out << "#TYPE ";
 
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
-- 
2.43.0


From 39b3e3090c00a74750e249c294d983b2e08e58e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 11/76] fix: do not evaluate retro Yoo lobes from uninitialised
 memory

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 8691408..b6fa81a 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -49,7 +49,7 @@ vec yoo_function::value(const vec& x) const
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		const double q = 2.0 * M_PI * x[0] / 633.0;
-		res[i] *= _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
+		res[i] = _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
 	}
 	return res;
 }
@@ -63,7 +63,7 @@ int yoo_function::nbParameters() const
 //! Get the vector of parameters for the function
 vec yoo_function::parameters() const 
 {
-	vec res(3*_parameters.dimY());
+	vec res(2*_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		res[i*2 + 0] = _kr[i];
-- 
2.43.0


From 234f1ca34d4baf8f7efe72408b3ccd73473f65c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:16 +0000
Subject: [PATCH 12/76] fix: keep the type of spherical Gaussian lobes in
 function files

---
 .../function.cpp                              | 74 +++++++++++++------
 .../function.h                                |  4 +
 2 files changed, 55 insertions(+), 23 deletions(-)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index f486e3d..923f194 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -221,6 +221,36 @@ vec spherical_gaussian_function::parametersJacobian(const vec& x) const
     return jac;
 }
 		
+bool spherical_gaussian_function::parse_type(const std::string& stype)
+{
+	if(stype == "mirror")
+	{
+		_type = Mirror;
+	}
+	else if(stype == "half")
+	{
+		_type = Half;
+	}
+	else if(stype == "back")
+	{
+		_type = Back;
+	}
+	else if(stype == "retro")
+	{
+		_type = Retro;
+	}
+	else if(stype == "moment")
+	{
+		_type = Moment;
+		_a = 1.0;
+	}
+	else
+	{
+		return false;
+	}
+	return true;
+}
+
 void spherical_gaussian_function::bootstrap(const ptr<data> d, const arguments& args)
 {
     for(int i=0; i<_parameters.dimY(); ++i)
@@ -233,27 +263,7 @@ void spherical_gaussian_function::bootstrap(const ptr<data> d, const arguments&
 	if(args.is_defined("sg-type"))
 	{
 		std::string stype = args.get_string("sg-type", "half");
-		if(stype == "mirror")
-		{
-			_type = Mirror;
-		}
-		else if(stype == "half")
-		{
-			_type = Half;
-		}
-		else if(stype == "back")
-		{
-			_type = Back;
-		}
-		else if(stype == "retro")
-		{
-			_type = Retro;
-		}
-		else if(stype == "moment")
-		{
-			_type = Moment;
-			_a = 1.0;
-		}
+		parse_type(stype);
 	}
 }
 
@@ -288,11 +298,25 @@ bool spherical_gaussian_function::load(std::istream& in)
         return false;
 	}
 
+	// Parse the type of the lobe. Files without it describe mirror lobes.
+	in >> token;
+	_type = Mirror;
+	if(token == "#TYPE")
+	{
+		in >> token;
+		if(!parse_type(token))
+		{
+			std::cerr << "<<ERROR>> unknown type of spherical gaussian \"" << token << "\"" << std::endl; 
+			return false;
+		}
+		in >> token;
+	}
+
 	// Parse the lobe
     for(int i=0; i<_parameters.dimY(); ++i)
 	{
-
-		in >> token >> _ks[i];
+		if(i > 0) { in >> token; }
+		in >> _ks[i];
 		in >> token >> _n[i];
 	}
 	
@@ -315,6 +339,10 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
     if(is_alta)
     {
 		out << "#FUNC nonlinear_function_spherical_gaussian" << std::endl ;
+		if(_type != Mirror)
+		{
+			out << "#TYPE " << (_type == Half ? "half" : _type == Back ? "back" : _type == Retro ? "retro" : "moment") << std::endl;
+		}
 
          for(int i=0; i<nY; ++i)
 		 {
diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.h b/sources/plugins/nonlinear_function_spherical_gaussian/function.h
index d1bef3a..2608412 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.h
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.h
@@ -98,6 +98,10 @@ class spherical_gaussian_function : public nonlinear_function
 		//! different evaluations.
 		double compute_dot(const vec& in) const;
 
+		//! \brief Set the type of the lobe from its name. Return false if the
+		//! name is unknown.
+		bool parse_type(const std::string& name);
+
 	private: // data
 
 		vec _n, _ks; // Lobes data
-- 
2.43.0


From 565f4ede269b1b4ee14d4f9c82a13264393674da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:40 +0000
Subject: [PATCH 13/76] fix: keep the diffuse term of Lafortune functions in
 function files

---
 .../nonlinear_function_lafortune/function.cpp | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 858a8a3..5fc1b38 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -406,14 +406,27 @@ bool lafortune_function::load(std::istream& in)
 	 in >> token >> nb_lobes;
 	 setNbLobes(nb_lobes);
 
-	// Parse the lobe
+	// Parse the diffuse term. Files without it have none.
     const int _nY = _parameters.dimY();
+	in >> token;
+	if(token == "#KD")
+	{
+		for(int i=0; i<_nY; ++i) { in >> _kd[i]; }
+		in >> token;
+	}
+	else
+	{
+		_kd.setZero();
+	}
+
+	// Parse the lobe
 	for(int n=0; n<_n; ++n)
 	{
 		for(int i=0; i<_nY; ++i)
 		{
 
-			in >> token >> _C[(n*_nY + i)*3 + 0];
+			if(n > 0 || i > 0) { in >> token; }
+			in >> _C[(n*_nY + i)*3 + 0];
             in >> token >> _C[(n*_nY + i)*3 + 1];
 			in >> token >> _C[(n*_nY + i)*3 + 2];
 			in >> token >> _N[n*_nY + i];
@@ -435,6 +448,12 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
     {
         out << "#FUNC nonlinear_function_lafortune" << std::endl ;
         out << "#NB_LOBES " << _n << std::endl ;
+        if(!_kd.isZero(0.0))
+        {
+            out << "#KD";
+            for(int i=0; i<_nY; ++i) { out << " " << _kd[i]; }
+            out << std::endl;
+        }
 
         for(int n=0; n<_n; ++n)
         {
-- 
2.43.0


From 86596fe6eb52ce2114d3832e4d56b84d1294e6ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:33 +0000
Subject: [PATCH 14/76] fix: report functions that could not be written
 completely

---
 sources/core/function.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index db66d48..3785555 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -16,6 +16,7 @@
 #include "plugins_manager.h"
 
 #include <cassert>
+#include <stdexcept>
 
 using namespace alta;
 
@@ -60,6 +61,7 @@ void function::save(const std::string& filename, const arguments& args) const
 	if(!file.is_open())
 	{
 		std::cerr << "<<ERROR>> unable to open output file for writing" << std::endl;
+		throw std::runtime_error("unable to open \"" + filename + "\" for writing");
 	}
 
 	// If the export is the alta format, use the maximum precision formatting
@@ -123,6 +125,14 @@ void function::save(const std::string& filename, const arguments& args) const
 	{
 		file << "::end shader" << std::endl;
 	}
+
+	// Never let an incomplete file pass for a saved function
+	file.close();
+	if(!file)
+	{
+		std::cerr << "<<ERROR>> unable to write the output file" << std::endl;
+		throw std::runtime_error("unable to write \"" + filename + "\"");
+	}
 }
 		
 //! \brief save the header of the output function file. The header should
-- 
2.43.0


From 9045eb6e1313e56faf70c53fdbe2a8b4a20f848d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 15/76] fix: report text and grid datasets that could not be
 written completely

---
 sources/core/data.cpp                      | 5 +++--
 sources/plugins/data_interpolants/grid.cpp | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/sources/core/data.cpp b/sources/core/data.cpp
index 3dffbbb..d61239f 100644
--- a/sources/core/data.cpp
+++ b/sources/core/data.cpp
@@ -19,9 +19,10 @@ void data::save(const std::string& filename) const
 {
     std::ofstream file;
 
-    file.exceptions(std::ios_base::failbit);
+    // Raise an exception when the file cannot be opened, or cannot be written
+    // completely.
+    file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
     file.open(filename.c_str(), std::ios_base::trunc);
-    file.exceptions(std::ios_base::goodbit);
 
         alta::save_data_as_text(file, *this);
 
diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index abc5818..678d9f6 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -267,9 +267,10 @@ class BrdfGrid : public vertical_segment {
       {
          std::ofstream file;
 
-         file.exceptions(std::ios_base::failbit);
+         // Raise an exception when the file cannot be opened, or cannot be
+         // written completely.
+         file.exceptions(std::ios_base::failbit | std::ios_base::badbit);
          file.open(filename.c_str(), std::ios_base::trunc);
-         file.exceptions(std::ios_base::goodbit);
 
          save_header(file);
 
-- 
2.43.0


From b7f7b391e1dcad1963f9c770fa20a374645e8590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 16/76] fix: report MERL files that could not be written
 completely

---
 sources/plugins/data_io/merl.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index 5042c55..8ba5639 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -33,6 +33,7 @@
 #include <cstdlib>
 #include <cmath>
 #include <algorithm>
+#include <stdexcept>
 
 #define BRDF_SAMPLING_RES_THETA_H  90
 #define BRDF_SAMPLING_RES_THETA_D  90
@@ -113,6 +114,10 @@ public: // methods
 	void save(const std::string& filename) const
 	{
 		FILE *f = fopen(filename.c_str(), "wb");
+		if(f == NULL)
+		{
+			throw std::runtime_error("unable to open \"" + filename + "\" for writing");
+		}
 
 		int dims[3];
 		dims[0] = BRDF_SAMPLING_RES_THETA_H;
@@ -121,10 +126,14 @@ public: // methods
 
 		const int n = dims[0]*dims[1]*dims[2];
 
-		fwrite(dims, sizeof(int), 3, f);
-		fwrite(brdf, sizeof(double), 3*n, f);
+		bool written = fwrite(dims, sizeof(int), 3, f) == 3;
+		written = fwrite(brdf, sizeof(double), 3*n, f) == size_t(3*n) && written;
+		written = fclose(f) == 0 && written;
 
-		fclose(f);
+		if(!written)
+		{
+			throw std::runtime_error("unable to write \"" + filename + "\"");
+		}
 	}
 
 	// Acces to data
-- 
2.43.0


From 47432126c95daa2f34507c1b7862eda48acece86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:04 +0000
Subject: [PATCH 17/76] fix: write UTIA files as their loader reads them, and
 report EXR and UTIA files that could not be written completely

---
 sources/plugins/data_io/EXR_IO.h  | 26 ++++++++++++++++++++------
 sources/plugins/data_io/slice.cpp |  1 +
 sources/plugins/data_io/utia.cpp  | 23 ++++++++++++++---------
 3 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 408c67a..5221a85 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -12,6 +12,8 @@
 // STL includes
 #include <stdexcept>
 #include <cassert>
+#include <cstdio>
+#include <cstdlib>
 
 // TinyEXR includes
 #define TINYEXR_IMPLEMENTATION
@@ -172,18 +174,30 @@ class t_EXR_IO
 				header.requested_pixel_types[i] = TINYEXR_PIXELTYPE_FLOAT; // pixel type of output image to be stored in .EXR
 			}
 
-			const char* err;
-			int ret = SaveEXRImageToFile(&image, &header, filename, &err);
-			if (ret != TINYEXR_SUCCESS) {
+			// Write the file here rather than using SaveEXRImageToFile, which
+			// does not report data lost when the file is closed.
+			const char* err = NULL;
+			unsigned char* memory = NULL;
+			const size_t size = SaveEXRImageToMemory(&image, &header, &memory, &err);
+			FILE* file = (size > 0) ? fopen(filename, "wb") : NULL;
+			bool success = file != NULL && fwrite(memory, 1, size, file) == size;
+			if(file != NULL && fclose(file) != 0) {
+				success = false;
+			}
+			free(memory);
+
+			if(!success) {
 				std::cerr << "<<ERROR>> Unable to save to EXR file" << std::endl;
-				std::cerr << "<<ERROR>> " << err << std::endl;
-				return ret;
+				if(err != NULL) {
+					std::cerr << "<<ERROR>> " << err << std::endl;
+					FreeEXRErrorMessage(err);
+				}
 			}
 
 			free(header.channels);
 			free(header.pixel_types);
 			free(header.requested_pixel_types);
-			return true ;
+			return success;
 		}
 };
 
diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 3041d51..342df66 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -123,6 +123,7 @@ class BrdfSlice : public data {
 			if(!t_EXR_IO<double>::SaveEXR(filename.c_str(), _width, _slice*_height, _data))
 			{
 				std::cerr << "<<ERROR>> unable to save image file" << std::endl;
+				throw std::runtime_error("unable to write \"" + filename + "\"");
 			}
 		}
 
diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 065f52d..377dcad 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -136,17 +136,22 @@ public:
 	    			temp[3*indexEXR + 1] = Bd[indexUTIA + 1*nPerPlane];
 	    			temp[3*indexEXR + 2] = Bd[indexUTIA + 2*nPerPlane];
 	  			}
-	  		t_EXR_IO<double>::SaveEXR(filename.c_str(), W, H, temp, 3);
+	  		const bool saved = t_EXR_IO<double>::SaveEXR(filename.c_str(), W, H, temp, 3);
 			delete[] temp;
-		} else {
-			std::ofstream stream(filename.c_str(), std::ios_base::out | std::ios_base::binary);
-			int count = 0;
-			for(int isp=0;isp<planes;isp++)	{
-			  for(int ni=0;ni<nti*npi;ni++)
-			    for(int nv=0;nv<ntv*npv;nv++) {
-			    	stream << Bd[count++];
-			    }
+
+			if(!saved) {
+				throw std::runtime_error("unable to write \"" + filename + "\"");
 			}
+		} else {
+			// Raise an exception when the file cannot be opened, or cannot be
+			// written completely.
+			std::ofstream stream;
+			stream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+			stream.open(filename.c_str(), std::ios_base::out | std::ios_base::binary);
+
+			// Same layout as expected by load_data
+			stream.write((const char*)Bd, planes*nPerPlane*sizeof(double));
+			stream.close();
 		}
 	}
 
-- 
2.43.0


From 1c3473c20ca50f6c47ca14310525addfa5d4ea83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:17 +0000
Subject: [PATCH 18/76] fix: size grids from their own parametrization and
 initialise all of their samples

---
 sources/plugins/data_interpolants/grid.cpp | 89 +++++++++++-----------
 1 file changed, 46 insertions(+), 43 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 678d9f6..dcc305a 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -23,7 +23,7 @@ using namespace alta;
 
 static vec get_min(const params::input& param) {
 
-   vec res(params::dimension(param));
+   vec res = vec::Zero(params::dimension(param));
    switch(param)
    {
       // 1D Parametrizations
@@ -79,7 +79,7 @@ static vec get_min(const params::input& param) {
 
 static vec get_max(const params::input& param) {
 
-   vec res(params::dimension(param));
+   vec res = vec::Zero(params::dimension(param));
    switch(param)
    {
       // 1D Parametrizations
@@ -152,63 +152,66 @@ class BrdfGrid : public vertical_segment {
 
       std::vector<int> _size;
 
-      BrdfGrid(size_t size, const parameters& params, const arguments& args)
-        : vertical_segment(params, size)
+      BrdfGrid(const parameters& params, const arguments& args)
+        : vertical_segment(grid_parameters(params, args),
+                           grid_cells(grid_shape(grid_parameters(params, args), args))),
+          _size(grid_shape(parametrization(), args))
       {
-         initialize(args);
+         _min = get_min(parametrization().input_parametrization());
+         _max = get_max(parametrization().input_parametrization());
+
+         // Set the abscissa data
+         vec x = vec::Zero(parametrization().dimX() + parametrization().dimY());
+         for(int n=0; n<size(); ++n) {
+            get_abscissa(n, x);
+            set(n, x);
+         }
       }
 
-      // FIXME: Move this to constructor.
-      void initialize(const arguments& args, bool preallocate = true) {
+      // Allow to use a different parametrization depending on the arguments
+      // provided.
+      static parameters grid_parameters(const parameters& params,
+                                        const arguments& args) {
 
-         // Allow to load a different parametrization depending on the
-         // parameters provided.
-         params::input in_param;
-         params::output out_param;
-         int nX, nY;
+         params::input  in_param  = params.input_parametrization();
+         params::output out_param = params.output_parametrization();
+         int nX = params.dimX(), nY = params.dimY();
 
          if(args.is_defined("PARAM_IN")) {
             in_param = params::parse_input(args["PARAM_IN"]);
+            nX = params::dimension(in_param);
          } else if(args.is_defined("param")) {
             in_param = params::parse_input(args["param"]);
+            nX = params::dimension(in_param);
          }
-         nX = params::dimension(in_param);
 
          if(args.is_defined("PARAM_OUT")) {
             out_param = params::parse_output(args["PARAM_OUT"]);
+            nY = params::dimension(out_param);
          }
-         nY = params::dimension(out_param);
 
-         // Get the grid size, by default use an 10^dimX grid
-         int N = 1;
-         if(args.is_defined("grid-size") && args.is_vec("grid-size")) {
-            _size = args.get_vec<int>("grid-size");
-            assert(_size.size() == nX);
+         return parameters(nX, nY, in_param, out_param);
+      }
 
-            for(int i=0; i<nX; ++i) {
-               N *= _size[i];
-            }
-         } else {
-            for(int i=0; i<nX; ++i) {
-               _size.push_back(10);
-               N *= 10;
-            }
-         }
-         _min = get_min(in_param);
-         _max = get_max(in_param);
-
-         // Preallocate the grid data
-         if(preallocate) {
-            // Set the abscissa data
-            vec x(parametrization().dimX() + parametrization().dimY());
-            for(int n=0; n<N; ++n) {
-               get_abscissa(n, x);
-               set(n, x);
-            }
+      // Get the grid size, by default use an 10^dimX grid
+      static std::vector<int> grid_shape(const parameters& params,
+                                         const arguments& args) {
+
+         std::vector<int> shape(params.dimX(), 10);
+         if(args.is_defined("grid-size") && args.is_vec("grid-size")) {
+            shape = args.get_vec<int>("grid-size");
+            assert(shape.size() == size_t(params.dimX()));
          }
+         return shape;
+      }
 
-         parameters p(nX, nY, in_param, out_param);
-         setParametrization(p);
+      static unsigned int grid_cells(const std::vector<int>& shape) {
+
+         unsigned int N = 1;
+         for(size_t i=0; i<shape.size(); ++i) {
+            N *= shape[i];
+         }
+         return N;
       }
 
       inline int get_index(const vec& x) const {
@@ -345,7 +348,7 @@ class BrdfGrid : public vertical_segment {
                cid_s = cid_s*_size[i] + ((bitset) ? 1 : 0);
             }
 
-            if(id+cid_s > size())
+            if(id+cid_s >= size())
                cid_s = 0;
 
             y += alpha * get(id+cid_s).segment(parametrization().dimX(),
@@ -360,7 +363,7 @@ ALTA_DLL_EXPORT data* provide_data(size_t size,
                                    const parameters& params,
                                    const arguments& args)
 {
-    return new BrdfGrid(size, params, args);
+    return new BrdfGrid(params, args);
 }
 
 ALTA_DLL_EXPORT data* load_data(std::istream& input,
-- 
2.43.0


From 5a4601365006d124696d24c96ccd44c9a40d7980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 19/76] fix: report missing, incomplete or unreadable samples
 of native data files

---
 sources/core/args.h           |   6 +-
 sources/core/data_storage.cpp | 112 ++++++++++++++++++++++------------
 2 files changed, 76 insertions(+), 42 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index ff87908..7fd994b 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -299,7 +299,7 @@ class arguments
 						stream.get(s, 256, ',');
 						stream.ignore(1);
 						std::stringstream sstream(s);
-						T v;
+						T v = T();
 						sstream >> v;
 
 						// Push the value at the end of the vector
@@ -350,7 +350,7 @@ class arguments
 		template<typename T>
 		std::pair<T, T> get_pair(const std::string& key) const {
 
-			std::pair<T, T> res;
+			std::pair<T, T> res = std::pair<T, T>();
 
         //TODO: RP: it is not very efficient to call count + find
         // because find is called twice !!!
@@ -361,7 +361,7 @@ class arguments
 				std::string str = _map.find(key)->second;
 				std::stringstream sstream(str);
 
-				T first, second;
+				T first = T(), second = T();
 				sstream >> first >> second;
 
 				// Update the pair
diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index cf76980..1796290 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -109,7 +109,7 @@ static void read_confidence_interval(std::istream& input,
         }
         else if(i == 0 && kind == vertical_segment::SYMMETRICAL_CONFIDENCE_INTERVAL)
         {
-            double dt ;
+            double dt = 0.0;
             input >> dt ;
             min_dt = -dt;
             max_dt =  dt;
@@ -164,26 +164,34 @@ alta::data* alta::load_data_from_text(std::istream& input,
   if(! header.is_defined("DIM")) {
     std::cerr << "<<ERROR>> Undefined dimensions ! ";
     std::cerr << "Please add DIM [int] [int] into the file header." << std::endl;
-    throw;
+    throw std::ios_base::failure("undefined data dimensions");
   }
 
   params::input  in_param  = params::parse_input(header.get_string("PARAM_IN", "UNKNOWN_INPUT"));
   params::output out_param = params::parse_output(header.get_string("PARAM_OUT", "UNKNOWN_OUTPUT"));
 
   std::pair<int, int> dim = header.get_pair<int>("DIM");
-  size_t row_count = dim.first + 3 * dim.second;
-
-  min = args.get_vec("min", dim.first, -std::numeric_limits<float>::max()) ;
-  max = args.get_vec("max", dim.first,  std::numeric_limits<float>::max()) ;
+  if(dim.first <= 0 || dim.second <= 0) {
+    throw std::ios_base::failure("invalid data dimensions");
+  }
+  size_t row_count = size_t(dim.first) + 3 * size_t(dim.second);
+
+  // Samples are filtered only when the arguments ask for it.
+  const bool filter = args.is_defined("min") || args.is_defined("max")
+      || args.is_defined("ymin") || args.is_defined("ymax");
+  if(filter) {
+    min = args.get_vec("min", dim.first, -std::numeric_limits<float>::max()) ;
+    max = args.get_vec("max", dim.first,  std::numeric_limits<float>::max()) ;
 #ifdef DEBUG
-  std::cout << "<<DEBUG>> data will remove outside of " << min << " -> " << max << " x-interval" << std::endl;
+    std::cout << "<<DEBUG>> data will remove outside of " << min << " -> " << max << " x-interval" << std::endl;
 #endif
 
-  ymin = args.get_vec("ymin", dim.second, -std::numeric_limits<float>::max()) ;
-  ymax = args.get_vec("ymax", dim.second,  std::numeric_limits<float>::max()) ;
+    ymin = args.get_vec("ymin", dim.second, -std::numeric_limits<float>::max()) ;
+    ymax = args.get_vec("ymax", dim.second,  std::numeric_limits<float>::max()) ;
 #ifdef DEBUG
-  std::cout << "<<DEBUG>> data will remove outside of " << ymin << " -> " << ymax << " y-interval" << std::endl;
+    std::cout << "<<DEBUG>> data will remove outside of " << ymin << " -> " << ymax << " y-interval" << std::endl;
 #endif
+  }
 
   auto kind = ci_kind_from_number(header.get_int("VS"));
   std::vector<double> content;
@@ -204,13 +212,23 @@ alta::data* alta::load_data_from_text(std::istream& input,
     }
     else
     {
+      // Likewise, discard lines made of white space only.
+      linestream >> std::ws;
+      if(linestream.eof())
+      {
+        continue ;
+      }
+
       auto start = content.size();
 
       // Read the data point x and y coordinates
       for(int i=0; i < dim.first + dim.second; ++i)
       {
           double item;
-          linestream >> item;
+          if(!(linestream >> item))
+          {
+              throw std::ios_base::failure("incomplete data sample");
+          }
           content.push_back(item);
       }
 
@@ -223,12 +241,17 @@ alta::data* alta::load_data_from_text(std::istream& input,
       // Read the confidence interval data if available.
       read_confidence_interval(linestream, v, kind,
                                dim.first, dim.second, args);
+      if(linestream.fail())
+      {
+          throw std::ios_base::failure("incomplete confidence interval");
+      }
 
       // Check if we need to filter out what we just read according to ARGS.
       // TODO: Move filtering to a post-parsing operation on 'data'.
-      if (!(within_bounds(v.segment(0, dim.first), min, max)
-            && within_bounds(v.segment(dim.first, dim.second),
-                             ymin, ymax)))
+      if (filter
+          && !(within_bounds(v.segment(0, dim.first), min, max)
+               && within_bounds(v.segment(dim.first, dim.second),
+                                ymin, ymax)))
       {
           content.resize(start);
       }
@@ -241,6 +264,12 @@ alta::data* alta::load_data_from_text(std::istream& input,
     }
   }
 
+  // Do not mistake a read error for the end of the file.
+  if(input.bad())
+  {
+    throw std::ios_base::failure("error while reading data samples");
+  }
+
   std::cout << "<<INFO>> loaded input stream" << std::endl ;
   std::cout << "<<INFO>> loaded data input of R^"
             << dim.first
@@ -257,9 +286,6 @@ alta::data* alta::load_data_from_text(std::istream& input,
   data* result = new vertical_segment(param, element_count,
                                       std::shared_ptr<double>(raw_content,
                                                                             delete_array));
-  if(args.is_defined("data-correct-cosine"))
-      result->save("/tmp/data-corrected.dat");
-
   std::cout << "<<INFO>> " << element_count << " elements (rows) loaded" << std::endl ;
 
   return result;
@@ -353,25 +379,35 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
     using namespace alta;
 
     // FIXME: For now we make a number of assumptions.
-    assert(header["FORMAT"] == "binary");
-    assert(header.get_int("VERSION") == 0);
-    assert(header["PRECISION"] == "ieee754-double");
+    if(header["FORMAT"] != "binary"
+       || header.get_int("VERSION", -1) != 0
+       || header["PRECISION"] != "ieee754-double"
 #if __BYTE_ORDER == __LITTLE_ENDIAN
-    assert(header["ENDIAN"] == "little");
+       || header["ENDIAN"] != "little"
 #else
-    assert(header["ENDIAN"] == "big");
+       || header["ENDIAN"] != "big"
 #endif
+       || !header.is_defined("BEGIN_STREAM"))
+    {
+        throw std::ios_base::failure("unsupported binary data file");
+    }
 
     std::pair<int, int> dim = header.get_pair<int>("DIM");
-    assert(dim.first > 0 && dim.second > 0);
+    if(dim.first <= 0 || dim.second <= 0)
+    {
+        throw std::ios_base::failure("invalid data dimensions");
+    }
 
     auto kind = ci_kind_from_number(header.get_int("VS"));
 
-    in.exceptions(std::ios_base::failbit);
+    // Raise an exception when samples are missing or cannot be read.
+    in.exceptions(std::ios_base::failbit | std::ios_base::badbit);
 
-    int sample_count = header.get_int("SAMPLE_COUNT");
-      if(sample_count <= 0) {
+    int sample_count = -1;
+      std::istringstream count_stream(header["SAMPLE_COUNT"]);
+      if(!(count_stream >> sample_count) || sample_count < 0) {
          std::cerr << "<<ERROR>> Uncorrect or not samples count in the header, please check \'SAMPLE_COUNT\'" << std::endl;
+         throw std::ios_base::failure("invalid sample count");
       }
 
       size_t ci_rows =
@@ -379,25 +415,23 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
           ? 2 : (kind == vertical_segment::SYMMETRICAL_CONFIDENCE_INTERVAL
                  ? 1 : 0);
 
-      size_t rows = dim.first + dim.second + ci_rows * dim.second;
+      size_t rows = dim.first + size_t(dim.second) + ci_rows * dim.second;
+      if(sample_count > std::numeric_limits<std::streamsize>::max()
+                        / sizeof(double) / rows)
+      {
+          throw std::ios_base::failure("sample count too large");
+      }
+
       size_t element_count = sample_count * rows;
-      double *content = new double[element_count];
-      size_t byte_count = element_count * sizeof *content;
+      std::shared_ptr<double> content(new double[element_count], delete_array);
+      size_t byte_count = element_count * sizeof(double);
 
       // TODO: Arrange to use mmap and make it zero-alloc and zero-copy.
-      for (std::streamsize total = 0;
-           total < byte_count && !in.eof();
-           total += in.gcount())
-      {
-          in.read((char *) content + total, byte_count - total);
-      }
+      in.read((char *) content.get(), byte_count);
 
     parameters param(dim.first, dim.second,
                      params::parse_input(header["PARAM_IN"]),
                      params::parse_output(header["PARAM_OUT"]));
 
-    return new alta::vertical_segment(param, sample_count,
-                                      std::shared_ptr<double>(content,
-                                                              delete_array),
-                                      kind);
+    return new alta::vertical_segment(param, sample_count, content, kind);
 }
-- 
2.43.0


From 2d75348211848c25f8ce329adc724e9233564247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 20/76] fix: report incomplete ASTM files

---
 sources/plugins/data_io/astm.cpp | 35 +++++++++++++++++++++-----------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index 16950cc..54415f2 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -21,6 +21,7 @@
 #include <cstdlib>
 #include <cmath>
 #include <utility>
+#include <memory>
 
 namespace alta {
 
@@ -70,10 +71,8 @@ static arguments parse_header(std::istream& in) {
     arguments args;
     std::string key, line;
 
-    while(in.good()) {
-
-        // Get the current key
-        in >> key;
+    // Get the current key
+    while(in >> key) {
 
         // Extract the current line
         std::getline(in, line);
@@ -145,22 +144,31 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 		// Parse the header, get the output/input dimensions and params
 		arguments header = parse_header(input);
     auto vars = header.get_vec<std::string>("VARS");
+    if(vars.empty())
+    {
+        throw std::ios_base::failure("no VARS in the ASTM header");
+    }
     auto params = compute_parameters(vars);
 
     // Check data size from header
-    assert(header.is_defined("NUM_POINTS"));
-    int size = header.get_int("NUM_POINTS", 0);
+    int size = header.get_int("NUM_POINTS", -1);
+    if(size < 0 || params.dimX() == 0 || params.dimY() == 0)
+    {
+        throw std::ios_base::failure("invalid ASTM header");
+    }
 
     // Size of the data
     size_t n = params.dimX() + params.dimY();
-    double* data = new double[size * n];
+    std::shared_ptr<double> data(new double[size * n],
+                                 std::default_delete<double[]>());
 
     for (size_t i = 0; i < size * n; i += n)
     {
-        assert(input.good());
-
 	do {
-	    std::getline(input, line);
+	    if(!std::getline(input, line))
+	    {
+	        throw std::ios_base::failure("missing ASTM samples");
+	    }
 	} while(line.size() == 0 || line.rfind(',') == std::string::npos);
 
         std::replace(line.begin(), line.end(), ',', ' ');
@@ -169,11 +177,14 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
         // a vec of dim parametrization().dimX() + parametrization().dimY().
         std::stringstream stream(line);
         for(int j = 0; j < n; ++j) {
-            stream >> data[i + j];
+            if(!(stream >> data.get()[i + j]))
+            {
+                throw std::ios_base::failure("invalid ASTM sample");
+            }
         }
     }
 
-    return new ASTM(params, size, std::shared_ptr<double>(data));
+    return new ASTM(params, size, data);
 }
 
 }
-- 
2.43.0


From 44964a374270c3e998b13efb211a3e2a7c58672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 21/76] fix: report incomplete MERL files

---
 sources/plugins/data_io/merl.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index 8ba5639..2c52e43 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -33,6 +33,7 @@
 #include <cstdlib>
 #include <cmath>
 #include <algorithm>
+#include <memory>
 #include <stdexcept>
 
 #define BRDF_SAMPLING_RES_THETA_H  90
@@ -435,7 +436,10 @@ private: //methods
 static bool read_brdf(std::istream& input, double* &brdf)
 {
 		int dims[3];
-    input.read((char *) &dims, sizeof dims);
+    if(!input.read((char *) &dims, sizeof dims))
+		{
+        return false;
+		}
 		int n = dims[0] * dims[1] * dims[2];
 		if (n != BRDF_SAMPLING_RES_THETA_H *
         BRDF_SAMPLING_RES_THETA_D *
@@ -445,7 +449,10 @@ static bool read_brdf(std::istream& input, double* &brdf)
         return false;
 		}
 
-    input.read((char *) brdf, 3 * n * sizeof(double));
+    if(!input.read((char *) brdf, 3 * n * sizeof(double)))
+		{
+        return false;
+		}
 
 		return true;
 }
@@ -459,13 +466,13 @@ ALTA_DLL_EXPORT data* provide_data(size_t size, const parameters& params,
 
 ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 {
-    MERL* result = new MERL();
+    std::unique_ptr<MERL> result(new MERL());
 
     if(!read_brdf(input, result->brdf))
 		{
         std::cerr << "<<ERROR>> unable to load the data as a MERL file" << std::endl ;
-        throw;
+        throw std::ios_base::failure("invalid MERL file");
 		}
 
-    return result;
+    return result.release();
 }
-- 
2.43.0


From 5b7c73d708940f93dd4ce722b9b77ee79a7fc718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 22/76] fix: report incomplete UTIA and BRDF slice files

---
 sources/plugins/data_io/EXR_IO.h  | 30 ++++++++++++++++++++----------
 sources/plugins/data_io/slice.cpp | 14 +++++++++-----
 sources/plugins/data_io/utia.cpp  | 21 +++++++++++++++------
 3 files changed, 44 insertions(+), 21 deletions(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 5221a85..5b86436 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -10,6 +10,9 @@
 #pragma once
 
 // STL includes
+#include <iterator>
+#include <vector>
+#include <iostream>
 #include <stdexcept>
 #include <cassert>
 #include <cstdio>
@@ -37,20 +40,16 @@ class t_EXR_IO
 		static bool LoadEXR(std::istream& input, int& W,int& H, FType *& pix,int nC=3)
 		{
 			/* Convert the input std::istream into an unsigned char array */
-			std::vector<unsigned char> _memory;
-			size_t _n = 0, _m = 0;
-			while(input.good()) {
-				if(_n == _m) {
-					_m += 256;
-					_memory.resize(_m);
-				}
-
-				_memory[_n++] = (unsigned char)input.get();
+			std::vector<unsigned char> _memory((std::istreambuf_iterator<char>(input)),
+			                                   std::istreambuf_iterator<char>());
+			if(_memory.empty()) {
+				std::cerr << "<<ERROR>> Empty EXR stream" << std::endl;
+				return false;
 			}
 
 			/* Check the different part of loading */
 			int _r = -1;
-			const char* _err;
+			const char* _err = "";
 
 			/* Load the EXR version using TinyEXR */
 			EXRVersion _version;
@@ -99,6 +98,7 @@ class t_EXR_IO
 			/* Recopy the image into the provided pixel array */
 			W = _image.width;
 			H = _image.height;
+			bool _found[3] = { false, false, false };
 			pix = new FType[W*H*3];
 			for(int k=0; k<_image.num_channels; ++k) {
 				for(int i=0; i<W*H; ++i) {
@@ -106,12 +106,15 @@ class t_EXR_IO
 					switch(_header.channels[k].name[0]) {
 						case 'R':
 							pix[3*i + 0] = val;
+							_found[0] = true;
 							break;
 						case 'G':
 							pix[3*i + 1] = val;
+							_found[1] = true;
 							break;
 						case 'B':
 							pix[3*i + 2] = val;
+							_found[2] = true;
 							break;
 						default:
 							std::cout << "<<DEBUG>> Unknow EXR channel \'" << _header.channels[k].name[0] << "\'" << std::endl;
@@ -122,6 +125,13 @@ class t_EXR_IO
 			/* Free TinyEXR memory */
 			_r = FreeEXRHeader(&_header);
 			_r = FreeEXRImage(&_image);
+
+			/* An image without all of the colors is not a valid input */
+			if(!_found[0] || !_found[1] || !_found[2]) {
+				std::cerr << "<<ERROR>> Missing color channels in the EXR stream" << std::endl;
+				delete[] pix;
+				return false;
+			}
 			return true ;
 		}
 
diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 342df66..e81b694 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -109,7 +109,7 @@ class BrdfSlice : public data {
 
 		BrdfSlice(const arguments& args)
         : BrdfSlice(args, 512, 512, 1,
-                    new double[3 * 512 * 512])
+                    new double[3 * 512 * 512]())
     {
     }
 
@@ -176,15 +176,16 @@ class BrdfSlice : public data {
 			// the query values are not within reach.
 			if(_x[0] > _max[0] || x[0] < _min[0] || x[1] > _max[1] || x[1] < _min[1] ||
 				alta::isnan(_x[0]) || alta::isnan(x[1])) {
-					vec res(3);
+					vec res = vec::Zero(3);
 					return res;
 			}
 			/*
 			assert(_x[0] <= 1.0 && x[0] >= 0.0);
 			assert(_x[1] <= 1.0 && x[1] >= 0.0);
 			*/
-			const int i  = floor((_x[0]-_min[0]) * _width  / (_max[0] - _min[0]));
-			const int j  = floor((_x[1]-_min[1]) * _height / (_max[1] - _min[1]));
+			// The upper bounds of the domain belong to the last pixels.
+			const int i  = std::min(int(floor((_x[0]-_min[0]) * _width  / (_max[0] - _min[0]))), _width-1);
+			const int j  = std::min(int(floor((_x[1]-_min[1]) * _height / (_max[1] - _min[1]))), _height-1);
 			const int k  = 1;
 			//const int k  = floor(_x[2] * _slice  / (M_PI));
 			const int id = (i + j*_width)*k;
@@ -274,7 +275,10 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 {
     int width, height, slice = 1;
     double *data;
-    t_EXR_IO<double>::LoadEXR(input, width, height, data);
+    if(!t_EXR_IO<double>::LoadEXR(input, width, height, data))
+    {
+        throw std::ios_base::failure("invalid EXR file");
+    }
 
     BrdfSlice* result = new BrdfSlice(args, width, height, slice, data);
 
diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 377dcad..f96c74a 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -25,6 +25,7 @@
 #include <cstdio>
 #include <cstdlib>
 #include <cmath>
+#include <memory>
 
 #include "EXR_IO.h"
 
@@ -103,7 +104,7 @@ public:
 		this->npv = NPV;
 		this->planes = 3;
 		this->nPerPlane = N_PER_PLANE;
-		this->Bd = new double[planes*nti*npi*ntv*npv];
+		this->Bd = new double[planes*nti*npi*ntv*npv]();
 
 		_min = vec(4);
 	    _min[0] = 0.0;
@@ -321,9 +322,9 @@ ALTA_DLL_EXPORT data* provide_data(size_t size, const parameters& params,
 
 ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 {
-	UTIA* result = new UTIA(alta::parameters(4, 3,
+	std::unique_ptr<UTIA> result(new UTIA(alta::parameters(4, 3,
                                              params::SPHERICAL_TL_PL_TV_PV,
-                                             params::RGB_COLOR));
+                                             params::RGB_COLOR)));
 
 	// Check the filename extension and perform the adequate loading depending
 	// if it is an EXR file or a binary file.
@@ -331,7 +332,13 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 	if(filename.substr(filename.find_last_of(".") + 1) == "exr") {
 		// EXR data reading
 		double *temp; int W, H;
-    	t_EXR_IO<double>::LoadEXR(input, W, H, temp);
+		if(!t_EXR_IO<double>::LoadEXR(input, W, H, temp)) {
+			throw std::ios_base::failure("invalid EXR file");
+		}
+		if(size_t(W)*size_t(H) != N_PER_PLANE) {
+			delete[] temp;
+			throw std::ios_base::failure("the EXR file has not the size of a UTIA file");
+		}
 
 		// Data copy
 		for(int i=0; i<H; ++i)
@@ -348,9 +355,11 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 	} else {
 		int count = result->planes * result->nti * result->npi
                                    * result->ntv * result->npv;
-		input.read((char*)result->Bd, count*sizeof(double));
+		if(!input.read((char*)result->Bd, count*sizeof(double))) {
+			throw std::ios_base::failure("incomplete UTIA file");
+		}
 		std::cout << "<<INFO>> Successfully read binary BRDF file" << std::endl;
 	}
 
-    return result;
+    return result.release();
 }
-- 
2.43.0


From 1b7e28555c2ed3089e1f40f473086f99bd369d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 23/76] fix: never return functions with missing or unreadable
 parameters

---
 sources/core/function.cpp                     | 30 ++++++++++++++++---
 sources/core/function.h                       |  5 ++++
 sources/core/plugins_manager.cpp              | 29 ++++++++++++++++--
 sources/core/rational_function.cpp            | 19 ++++++++++--
 .../function.cpp                              |  2 +-
 .../function.cpp                              |  2 +-
 .../nonlinear_fresnel_schlick/function.cpp    |  2 +-
 .../nonlinear_function_abc/function.cpp       |  3 +-
 .../nonlinear_function_beckmann/function.cpp  |  2 +-
 .../nonlinear_function_blinn/function.cpp     |  2 +-
 .../nonlinear_function_diffuse/function.cpp   |  2 +-
 .../function.cpp                              | 10 +++++--
 .../nonlinear_function_lafortune/function.cpp | 10 +++++--
 .../function.cpp                              |  2 +-
 .../function.cpp                              |  2 +-
 .../nonlinear_function_retroyoo/function.cpp  |  2 +-
 .../nonlinear_function_sgd/function.cpp       |  2 +-
 .../function.cpp                              |  2 +-
 .../nonlinear_function_ward/function.cpp      |  2 +-
 .../nonlinear_shadowing_schlick/function.cpp  |  2 +-
 .../nonlinear_shadowing_smith/function.cpp    |  2 +-
 .../function.cpp                              |  2 +-
 22 files changed, 106 insertions(+), 30 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 3785555..c2b4e84 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -16,6 +16,7 @@
 #include "plugins_manager.h"
 
 #include <cassert>
+#include <cctype>
 #include <stdexcept>
 
 using namespace alta;
@@ -48,6 +49,16 @@ void function::bootstrap(const ptr<data>, const arguments& args)
     
 }
 
+bool function::loaded_completely(std::istream& in)
+{
+	if(!in.good() || !std::isspace(in.peek()))
+	{
+		std::cerr << "<<ERROR>> incomplete function parameters" << std::endl;
+		return false;
+	}
+	return true;
+}
+
 void function::save(const std::string& filename, const arguments& args) const
 {
 	bool const is_alta     = !args.is_defined("export") || args["export"] == "alta";
@@ -335,6 +346,9 @@ bool nonlinear_function::load(std::istream& in)
 		in >> token >> p[i];
 	}
 
+	if(!loaded_completely(in))
+		return false;
+
 	setParameters(p);
 	return true;
 }
@@ -535,6 +549,7 @@ bool compound_function::load(std::istream& in)
 		std::streampos pos = in.tellg();
 		if(!fs[i]->load(in))
 		{
+			in.clear();
 			in.seekg(pos);
 		}
 		else
@@ -543,7 +558,7 @@ bool compound_function::load(std::istream& in)
 		}
 	}
 	std::cout << "<<DEBUG>> number of correct function loaded in compound: " << nb_good  << " / " << fs.size() << std::endl;
-	return nb_good > 0;
+	return nb_good == (int)fs.size();
 }
 
 void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
@@ -584,7 +599,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 				{
 					std::getline(file, line) ;
 				}
-				while(line != "#ALTA HEADER END");
+				while(file.good() && line != "#ALTA HEADER END");
 
 				// Load the file
 				// For each individual element, the input file is parsed
@@ -603,6 +618,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 						pos = file.tellg();
 						if(!f1->load(file))
 						{
+							file.clear();
 							file.seekg(pos);
 
 							// Bootstrap the function as if it was not loaded
@@ -615,6 +631,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 						pos = file.tellg();
 						if(!f2->load(file))
 						{
+							file.clear();
 							file.seekg(pos);
 
 							// Bootstrap the function as if it was not loaded
@@ -628,6 +645,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 						// in the previous state and bootstrap normaly this function.
 						if(!fs[i]->load(file))
 						{
+							file.clear();
 							file.seekg(pos);
 
 							// Bootstrap the function as if it was not loaded
@@ -896,6 +914,7 @@ bool product_function::load(std::istream& in)
 		loaded_f1 = f1->load(in);
 		if(! loaded_f1)
 		{
+			in.clear();
 			in.seekg(pos);
 		}
 	}
@@ -906,11 +925,12 @@ bool product_function::load(std::istream& in)
 		loaded_f2 = f2->load(in);
 		if(! loaded_f2)
 		{
+			in.clear();
 			in.seekg(pos);
 		}
 	}
 
-	return loaded_f1 || loaded_f2;
+	return loaded_f1 && loaded_f2;
 }
 
 void product_function::save_body(std::ostream& out, const arguments& args) const
@@ -982,7 +1002,7 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 				{
 					std::getline(file, line) ;
 				}
-				while(line != "#ALTA HEADER END");
+				while(file.good() && line != "#ALTA HEADER END");
 
 				std::streampos pos = file.tellg();
 
@@ -990,6 +1010,7 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 				// in the previous state and bootstrap normaly this function.
 				if(!f1->load(file))
 				{
+					file.clear();
 					file.seekg(pos);
 
 					// Bootstrap the function as if it was not loaded
@@ -1001,6 +1022,7 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 				// in the previous state and bootstrap normaly this function.
 				if(!f2->load(file))
 				{
+					file.clear();
 					file.seekg(pos);
 
 					// Bootstrap the function as if it was not loaded
diff --git a/sources/core/function.h b/sources/core/function.h
index 0cccc4c..5de7df6 100644
--- a/sources/core/function.h
+++ b/sources/core/function.h
@@ -126,6 +126,11 @@ class function
     }
 
 protected:
+    //! \brief Return true when what was just extracted from \a in is there
+    //! completely: no extraction failed and the last item is followed by a
+    //! white space (otherwise it may be truncated).
+    static bool loaded_completely(std::istream& in);
+
     // Input and output parametrization
     parameters _parameters;
     vec _min, _max;
diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index b1c6ba4..a59cae5 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -21,6 +21,7 @@
 #include <cstdlib>
 #include <stdio.h>
 #include <list>
+#include <memory>
 
 using namespace alta;
 
@@ -210,20 +211,42 @@ function* plugins_manager::load_function(const std::string& filename)
   arguments header = arguments::parse_header(file);
 
   std::pair<int, int> dim = header.get_pair<int>("DIM");
+  if(dim.first <= 0 || dim.second <= 0)
+  {
+    std::cerr << "<<ERROR>> invalid function dimensions" << std::endl;
+    return NULL;
+  }
 
   param_in = params::parse_input(header.get_string("PARAM_IN", "UNKNOWN_INPUT"));
   param_out = params::parse_output(header.get_string("PARAM_OUT", "UNKNOWN_OUTPUT"));
   args = arguments::create_arguments(header["CMD"]);
 
+  // Do not guess the parametrizations from unreadable names
+  const std::string name_in  = header.get_string("PARAM_IN", "UNKNOWN_INPUT");
+  const std::string name_out = header.get_string("PARAM_OUT", "UNKNOWN_OUTPUT");
+  if((param_in == params::UNKNOWN_INPUT && name_in != "UNKNOWN_INPUT")
+     || (param_out == params::UNKNOWN_OUTPUT && name_out != "UNKNOWN_OUTPUT"))
+  {
+    std::cerr << "<<ERROR>> unknown function parametrization" << std::endl;
+    return NULL;
+  }
+
   parameters params(dim.first, dim.second, param_in, param_out);
 
   // Create the function from the command line
-  function* f = get_function(args, params);
+  std::unique_ptr<function> f(get_function(args, params));
 
   // Load the function part from the file object
-  if( f->load(file) )
+  if( f && f->load(file) )
   {
-    return f;
+    // The file must not describe more functions than its command line
+    std::string token;
+    while(token != "#FUNC" && file >> token) { }
+
+    if(token != "#FUNC" && !file.bad())
+    {
+      return f.release();
+    }
   }
 
   std::cout << "<<ERROR>> COULD NOT LOAD THE BRDF from File " << filename << std::endl;
diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 7d2bced..bb6fbfd 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -17,6 +17,7 @@
 #include <limits>
 #include <algorithm>
 #include <cmath>
+#include <vector>
 
 using namespace alta;
 
@@ -50,7 +51,8 @@ bool rational_function_1d::load(std::istream& in)
 	// Shoudl have the #NQ [int]
 	in >> token >> _nq;
 	if(token != "#NQ") { return false; }
-	vec a(_np), b(_nq);
+	if(!in || _np < 0 || _nq < 0) { return false; }
+	std::vector<double> p_coeffs, q_coeffs;
 
 	// Parse the p_i coefficients
 	// TODO: Check if the indices match the current index?
@@ -60,7 +62,10 @@ bool rational_function_1d::load(std::istream& in)
 		{
 			in >> token;
 		}
-		in >> a[j];
+
+		double coeff;
+		if(!(in >> coeff)) { return false; }
+		p_coeffs.push_back(coeff);
 	}
 
 	// Parse the q_i coefficients
@@ -71,8 +76,14 @@ bool rational_function_1d::load(std::istream& in)
 		{
 			in >> token;
 		}
-		in >> b[j];
+
+		double coeff;
+		if(!(in >> coeff)) { return false; }
+		q_coeffs.push_back(coeff);
 	}
+	if(!loaded_completely(in)) { return false; }
+	const vec a = Eigen::Map<vec>(p_coeffs.data(), _np);
+	const vec b = Eigen::Map<vec>(q_coeffs.data(), _nq);
 #ifdef NONE
 	std::cout << "p_" << i << " = " << a << std::endl;
 	std::cout << "q_" << i << " = " << b << std::endl;
@@ -656,6 +667,7 @@ bool rational_function::load(std::istream& in)
 		return false;
 	}
 	for(int k=0; k<_parameters.dimX(); ++k) {in >> min[k];}
+	if(!in) { return false; }
 	setMin(min);
 
 	in >> token;
@@ -665,6 +677,7 @@ bool rational_function::load(std::istream& in)
 		return false;
 	}
 	for(int k=0; k<_parameters.dimX(); ++k) {in >> max[k]; }
+	if(!in) { return false; }
 	setMax(max);
 
 	for(int i=0; i<_parameters.dimY(); ++i)
diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index f04da10..667bba3 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -68,7 +68,7 @@ bool schlick::load(std::istream& in)
     {
         in >> token >> R[i];
     }
-    return true;
+    return loaded_completely(in);
 }
 
 void schlick::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp b/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
index 03ed6b5..5be6de8 100644
--- a/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
@@ -154,7 +154,7 @@ bool retro_schlick::load(std::istream& in)
 	for(int i=0; i<_parameters.dimY(); ++i) {
 		in >> token >> R[i];
 	}
-	return true;
+	return loaded_completely(in);
 }
 
 void retro_schlick::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_fresnel_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
index 8d6521b..0db6611 100644
--- a/sources/plugins/nonlinear_fresnel_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
@@ -70,7 +70,7 @@ bool schlick_fresnel::load(std::istream& in)
     {
         in >> token >> R[i];
     }
-    return true;
+    return loaded_completely(in);
 }
 
 void schlick_fresnel::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 62d4dce..090820e 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -218,6 +218,7 @@ bool abc_function::load(std::istream& in)
 	if(params::dimension(_parameters.input_parametrization()) != 1)
 	{
 		std::cerr << "<<ERROR>> the parametrization specifed in the file for the ABC model is incorrect" << std::endl;
+		if(_parameters.input_parametrization() == params::UNKNOWN_INPUT) { return false; }
 	}
 
 	// Parse the lobe
@@ -228,7 +229,7 @@ bool abc_function::load(std::istream& in)
 		in >> token >> _b[i];
 		in >> token >> _c[i];
 	}
-    return true;
+    return loaded_completely(in);
 }
 
 
diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index 0851ea8..6b5c8da 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -238,7 +238,7 @@ bool beckmann_function::load(std::istream& in)
 		in >> token >> _ks[i];
 		in >> token >> _a[i];
 	}
-    return true;
+    return loaded_completely(in);
 }
 
 
diff --git a/sources/plugins/nonlinear_function_blinn/function.cpp b/sources/plugins/nonlinear_function_blinn/function.cpp
index 0018de8..fd46aa7 100644
--- a/sources/plugins/nonlinear_function_blinn/function.cpp
+++ b/sources/plugins/nonlinear_function_blinn/function.cpp
@@ -107,7 +107,7 @@ bool blinn_function::load(std::istream& in)
 #ifdef DEBUG
     std::cout << "<<DEBUG>> load parameters " << parameters() << std::endl;
 #endif
-    return true;
+    return loaded_completely(in);
 }
 
 //! Number of parameters to this non-linear function
diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index 1431c44..2e6dbd4 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -86,7 +86,7 @@ bool diffuse_function::load(std::istream &in)
     {
         in >> token >> _kd[i];
     }
-    return true;
+    return loaded_completely(in);
 
 }
 
diff --git a/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp b/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp
index fe4f833..aaff703 100644
--- a/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_isotropic_lafortune/function.cpp
@@ -381,10 +381,16 @@ bool isotropic_lafortune_function::load(std::istream& in)
         return false;
 	}
 	in >> nb_lobes;
+	if(!in || nb_lobes < 0
+	   || nb_lobes > std::numeric_limits<int>::max() / (2 * _parameters.dimY()))
+	{
+		std::cerr << "<<ERROR>> cannot access to the number of lobes" << std::endl;
+		return false;
+	}
 	setNbLobes(nb_lobes);
 
 	// Parse the lobe
-	for(int n=0; n<_n; ++n)
+	for(int n=0; n<_n && in; ++n)
 	{
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
@@ -398,7 +404,7 @@ bool isotropic_lafortune_function::load(std::istream& in)
 
 	std::cout << "<<INFO>> Cd = " << _C << std::endl;
 	std::cout << "<<INFO>> N = "  << _N << std::endl;
-    return true;
+    return loaded_completely(in);
 }
 
 
diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 5fc1b38..50ca8f4 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -404,6 +404,12 @@ bool lafortune_function::load(std::istream& in)
 	 // Shoudl have the #NB_LOBES [int]
 	 int nb_lobes;
 	 in >> token >> nb_lobes;
+	 if(!in || token != "#NB_LOBES" || nb_lobes < 0
+	    || nb_lobes > std::numeric_limits<int>::max() / (3 * _parameters.dimY()))
+	 {
+		 std::cerr << "<<ERROR>> cannot access to the number of lobes" << std::endl;
+		 return false;
+	 }
 	 setNbLobes(nb_lobes);
 
 	// Parse the diffuse term. Files without it have none.
@@ -420,7 +426,7 @@ bool lafortune_function::load(std::istream& in)
 	}
 
 	// Parse the lobe
-	for(int n=0; n<_n; ++n)
+	for(int n=0; n<_n && in; ++n)
 	{
 		for(int i=0; i<_nY; ++i)
 		{
@@ -436,7 +442,7 @@ bool lafortune_function::load(std::istream& in)
 	
 	std::cout << "<<INFO>> Cd = " << _C << std::endl;
 	std::cout << "<<INFO>> N = " << _N << std::endl;
-    return true;
+    return loaded_completely(in);
 }
 
 void lafortune_function::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index f895cbd..441689e 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -242,7 +242,7 @@ bool retrobeckmann_function::load(std::istream& in)
 		in >> token >> _ks[i];
 		in >> token >> _a[i];
 	}
-    return true;
+    return loaded_completely(in);
 }
 
 
diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index b140bec..848ad11 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -95,7 +95,7 @@ bool retroblinn_function::load(std::istream& in)
         in >> token >> _ks[i];
         in >> token >>  _N[i];
     }
-    return true;
+    return loaded_completely(in);
 }
 
 //! Number of parameters to this non-linear function
diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index b6fa81a..7d9f435 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -176,7 +176,7 @@ bool yoo_function::load(std::istream& in)
 		in >> token >> _kr[i];
 		in >> token >> _lt[i];
 	}
-    return true;
+    return loaded_completely(in);
 }
 
 
diff --git a/sources/plugins/nonlinear_function_sgd/function.cpp b/sources/plugins/nonlinear_function_sgd/function.cpp
index df1c884..b82bd33 100644
--- a/sources/plugins/nonlinear_function_sgd/function.cpp
+++ b/sources/plugins/nonlinear_function_sgd/function.cpp
@@ -287,7 +287,7 @@ bool shifted_gamma_function::load(std::istream& in)
 		in >> token >> sh_theta0[i];
 	}
 
-	return true;
+	return loaded_completely(in);
 }
 
 void 
diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 923f194..ec78502 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -327,7 +327,7 @@ bool spherical_gaussian_function::load(std::istream& in)
 
 	std::cout << "<<DEBUG>> Spherical gaussians plugin, found p= " << parameters() << std::endl;
 
-    return true;
+    return loaded_completely(in);
 }
 
 
diff --git a/sources/plugins/nonlinear_function_ward/function.cpp b/sources/plugins/nonlinear_function_ward/function.cpp
index 7fe5e1c..4761ef2 100644
--- a/sources/plugins/nonlinear_function_ward/function.cpp
+++ b/sources/plugins/nonlinear_function_ward/function.cpp
@@ -215,7 +215,7 @@ bool ward_function::load(std::istream& in)
 		in >> token >> _ax[i];
 		in >> token >> _ay[i];
 	}
-    return true;
+    return loaded_completely(in);
 }
 
 
diff --git a/sources/plugins/nonlinear_shadowing_schlick/function.cpp b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
index 3646faa..4e62ef7 100644
--- a/sources/plugins/nonlinear_shadowing_schlick/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
@@ -71,7 +71,7 @@ bool schlick_masking::load(std::istream& in)
     {
         in >> token >> w[i];
     }
-    return true;
+    return loaded_completely(in);
 }
 
 void schlick_masking::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index 6877bb1..a27d2be 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -72,7 +72,7 @@ bool smith::load(std::istream& in)
     {
         in >> token >> w[i];
     }
-    return true;
+    return loaded_completely(in);
 }
 
 void smith::save_call(std::ostream& out, const arguments& args) const
diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index 6916c43..00724e2 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -81,7 +81,7 @@ WalterSmith::load(std::istream& in)
   #ifdef DEBUG
   std::cout << "<<DEBUG>> load parameters " << parameters() << std::endl;
   #endif
-  return true;
+  return loaded_completely(in);
 
 
 }
-- 
2.43.0


From fa558eb0b81ca2dce373417cc92759cd177dc498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:29 +0000
Subject: [PATCH 24/76] fix: report function plugins that cannot be loaded

---
 sources/core/plugins_manager.cpp | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index a59cae5..08ae7a8 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -312,6 +312,8 @@ function* plugins_manager::get_function(const arguments& args,
       if(nl_f == NULL)
       {
           std::cerr << "<<ERROR>> only non-linear functions are compatible with a compound" << std::endl;
+          delete f;
+          return NULL;
       }
       else
       {
@@ -333,6 +335,11 @@ function* plugins_manager::get_function(const arguments& args,
   else //Here we check if the argument provided with --func is file describing a function
   {
     const std::string filename = args["func"];
+    if(filename == "rational_function")
+    {
+      return new rational_function(params) ;
+    }
+
     FunctionPrototype myFunction = open_library<FunctionPrototype>(filename, "provide_function");
     if(myFunction != NULL)
     {
@@ -345,7 +352,7 @@ function* plugins_manager::get_function(const arguments& args,
     else
     {
       std::cerr << "<<ERROR>> no function provider found in file \"" << filename << "\"" << std::endl;
-      return new rational_function(params) ;
+      return NULL ;
     }
   }
 
@@ -363,7 +370,8 @@ function* plugins_manager::get_function(const arguments& args,
       if(nl_func == NULL)
       {
        std::cerr << "<<ERROR>> only non-linear function are permitted to use Fresnel" << std::endl;
-       return func;
+       delete func;
+       return NULL;
       }
 
       std::cout << "<<DEBUG>> multiplying by a Fresnel term" << std::endl;
@@ -394,9 +402,8 @@ function* plugins_manager::get_function(const arguments& args,
       std::cout << " n = " << n << std::endl;
       #endif
 
-      nonlinear_function* func_fres =
-          dynamic_cast<nonlinear_function*>(get_function(arguments::create_arguments(n),
-                                                         params));
+      function* fres = get_function(arguments::create_arguments(n), params);
+      nonlinear_function* func_fres = dynamic_cast<nonlinear_function*>(fres);
       if(func_fres != NULL)
       {
         bool const fresnel_is_fixed = (args.is_defined("fixed-fresnel")) ? (true) : (false);
@@ -417,8 +424,10 @@ function* plugins_manager::get_function(const arguments& args,
       }
       else
       {
-        std::cerr << "<<ERROR>> the right part of the product is not a nonlinear function. Will use only the left part." << std::endl;
-        return func;
+        std::cerr << "<<ERROR>> the right part of the product is not a nonlinear function." << std::endl;
+        delete fres;
+        delete func;
+        return NULL;
       }
    }
 
-- 
2.43.0


From 3b8c7aa6ae2bd49d459fc097ff38ce7260f566e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:03 +0000
Subject: [PATCH 25/76] fix: data2brdf: report missing data before creating the
 function

---
 sources/softs/data2brdf/main.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/softs/data2brdf/main.cpp b/sources/softs/data2brdf/main.cpp
index e8b0c4c..6d20180 100644
--- a/sources/softs/data2brdf/main.cpp
+++ b/sources/softs/data2brdf/main.cpp
@@ -121,11 +121,17 @@ int main(int argc, char** argv)
 		}
 		CATCH_FILE_IO_ERROR(args["input"]);
 
+    if(!d)
+    {
+        std::cerr << "<<ERROR>> no data object correctly defined" << std::endl;
+        return 1;
+    }
+
     ptr<function> f = ptr<function>(plugins_manager::get_function(args, d->parametrization()));
 
-    if(!f || !d)
+    if(!f)
     {
-        std::cerr << "<<ERROR>> no function or data object correctly defined" << std::endl;
+        std::cerr << "<<ERROR>> no function object correctly defined" << std::endl;
         return 1;
     }
 
-- 
2.43.0


From 7f31fc08daca8a6ad8ef23382411c301cad5ce94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 26/76] fix: brdf2brdf: report unreadable functions and keep
 the plugins named by re-saved ones

---
 sources/softs/brdf2brdf/main.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index 7b94d07..b464934 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -63,8 +63,29 @@ int main(int argc, char** argv)
     // Load the function
     function* f = plugins_manager::load_function(args["input"]);
 
+    if(f == NULL)
+    {
+        std::cerr << "<<ERROR>> unable to load the function file \"" << args["input"] << "\"" << std::endl;
+        return 1;
+    }
+
+    const std::string output = args["output"];
+
+    // An ALTA file must name the plugins that load it, as the input file does
+    if(!args.is_defined("export") || args["export"] == "alta")
+    {
+        std::ifstream input(args["input"].c_str());
+        const arguments header = arguments::parse_header(input);
+        if(!header.is_defined("DIM"))
+        {
+            std::cerr << "<<ERROR>> unable to read the function file \"" << args["input"] << "\"" << std::endl;
+            return 1;
+        }
+        args = arguments::create_arguments(header["CMD"]);
+    }
+
     // Save it
-    f->save(args["output"], args) ;
+    f->save(output, args) ;
 
 	return 0 ;
 }
-- 
2.43.0


From c3058c98cade6591393f7e76f740a4fd9e0ab7e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:25 +0000
Subject: [PATCH 27/76] fix: brdf2data: fail when there is no data object to
 export

---
 sources/softs/brdf2data/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/softs/brdf2data/main.cpp b/sources/softs/brdf2data/main.cpp
index 689d52f..85d53e2 100644
--- a/sources/softs/brdf2data/main.cpp
+++ b/sources/softs/brdf2data/main.cpp
@@ -125,6 +125,7 @@ int main(int argc, char** argv)
    else
    {
       std::cerr << "<<ERROR>> cannot import function or export data" << std::endl ;
+      return 1;
    }
 
    return 0 ;
-- 
2.43.0


From 7715947c540ce08ff413b1d0a76ce993374a75e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:38 +0000
Subject: [PATCH 28/76] fix: brdf2gnuplot: report data that cannot be loaded
 and plots that cannot be written

---
 sources/softs/brdf2gnuplot/main.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 5eaa060..3e10f79 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -88,6 +88,12 @@ int main(int argc, char** argv)
     }
     CATCH_FILE_IO_ERROR (args["data-file"]);
 
+		if(!d)
+		{
+			std::cerr << "<<ERROR>> unable to load the data" << std::endl;
+			return 1;
+		}
+
 		// Create output file now that we are sure that needed data are loaded
 		std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
 		file.precision(10);
@@ -174,6 +180,11 @@ int main(int argc, char** argv)
 		}
 
 		file.close();
+		if(!file)
+		{
+			std::cerr << "<<ERROR>> unable to write \"" << args["output"] << "\"" << std::endl;
+			return 1;
+		}
 	}
 	else if(args.is_defined("polar-plot"))
 	{
@@ -218,7 +229,17 @@ int main(int argc, char** argv)
 			for(int k=0; k<f->parametrization().dimY(); ++k) { file << y[k] << "\t"; }
 			file << std::endl;
 		}
-			file.close();
+		file.close();
+		if(!file)
+		{
+			std::cerr << "<<ERROR>> unable to write \"" << args["output"] << "\"" << std::endl;
+			return 1;
+		}
+	}
+	else
+	{
+		std::cerr << "<<ERROR>> nothing to plot: define --data, --data-file or --polar-plot" << std::endl;
+		return 1;
 	}
 
 	return 0 ;
-- 
2.43.0


From d4f0322baf4a52090a34d4d52a7a9e392034757b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 29/76] fix: data2moments, data2stats, fit2stat: report outputs
 that cannot be written

---
 sources/softs/data2moments/main.cpp     | 5 +++++
 sources/softs/data2stats/data2stats.cpp | 7 +++++++
 sources/softs/fit2stat/fit2stat.cpp     | 7 +++++++
 3 files changed, 19 insertions(+)

diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 540a243..4e9ea58 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -345,6 +345,11 @@ int main(int argc, char** argv)
 #endif
 
 		file.close();
+		if(!file)
+		{
+			std::cerr << "<<ERROR>> unable to write \"" << args["output"] << "\"" << std::endl;
+			return 1;
+		}
 		return 0 ;
 	}
 	else
diff --git a/sources/softs/data2stats/data2stats.cpp b/sources/softs/data2stats/data2stats.cpp
index 1744653..eb1f1d3 100644
--- a/sources/softs/data2stats/data2stats.cpp
+++ b/sources/softs/data2stats/data2stats.cpp
@@ -576,6 +576,13 @@ int main(int argc, char* argv[])
             fwriter << "RMSE :" << rmse      << std::endl;
             fwriter << std::endl;
 
+            fwriter.close();
+            if(!fwriter)
+            {
+              std::cerr << "<<ERROR>> Could not save metrics to " << output_filename << std::endl;
+              return EXIT_FAILURE;
+            }
+
          } else {
             std::cerr << "<<ERROR>> Could not save metrics to "
                       << output_filename << std::endl;
diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index dea5bcf..b5cc02d 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -670,6 +670,13 @@ main(int argc, char* argv[])
         fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_mse << std::endl;
         fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_rmse << std::endl;
         fwriter << std::endl;
+
+        fwriter.close();
+        if(!fwriter)
+        {
+          std::cerr << "<<ERROR>> Could not save metrics to " << output_filename << std::endl;
+          return EXIT_FAILURE;
+        }
       }
       else
       {
-- 
2.43.0


From 569032d800bee834baf3224321f1881fae689d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 30/76] fix: data2data: do not count incorrect configurations
 concurrently

---
 sources/softs/data2data/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index b1b4df3..908639b 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -231,7 +231,7 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
 
     unsigned int stats_incorrect = 0;
 
-#pragma omp parallel for
+#pragma omp parallel for reduction(+:stats_incorrect)
 		for(int i=0; i<d_out->size(); ++i)
 		{
         vec temp(d_in->parametrization().dimX());
-- 
2.43.0


From e18da578f1517f9315df1737b024b0e74fb4bf2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:01 +0000
Subject: [PATCH 31/76] fix: data2data: report input data plugins that cannot
 be loaded

---
 sources/softs/data2data/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 908639b..990588d 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -359,7 +359,8 @@ int main(int argc, char** argv)
 
 	if(!d_in)
 	{
-		std::cout << "<<INFO>> Input data will be treated as ALTA format" << std::endl;
+		std::cerr << "<<ERROR>> Cannot import data" << std::endl ;
+		return EXIT_FAILURE;
 	}
 
 
-- 
2.43.0


From 9a275d9fa83afce64db3caa973971dd48b15a4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:04 +0000
Subject: [PATCH 32/76] fix: data2data: report binary files that cannot be
 written completely

---
 sources/softs/data2data/main.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 990588d..e128f48 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -402,9 +402,10 @@ int main(int argc, char** argv)
       try
       {
           std::ofstream out;
-          out.exceptions(std::ios_base::failbit);
-          out.open(args["output"]);
+          out.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+          out.open(args["output"], std::ios_base::binary);
           save_data_as_binary(out, *d_out);
+          out.close();
       }
       CATCH_FILE_IO_ERROR(args["output"]);
   }
-- 
2.43.0


From 4fb895a7b2a0bc2b8ce8ed9118c4a101babf82c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 33/76] fix: print the hours of a timer

---
 sources/core/common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/common.cpp b/sources/core/common.cpp
index 1547954..ed57b99 100644
--- a/sources/core/common.cpp
+++ b/sources/core/common.cpp
@@ -86,7 +86,7 @@ void timer::print(std::ostream& out) const
     unsigned int tsec = elapsed() ;
     unsigned int sec  = tsec % 60 ;
     unsigned int min  = (tsec / 60) % 60 ;
-    unsigned int hour = (tsec / 360) ;
+    unsigned int hour = (tsec / 3600) ;
     out << hour << "h " << min << "m " << sec << "s" ;
 }
 
-- 
2.43.0


From aec7888c242b4aa6e6d5dbe306e9b04774fe8511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 34/76] fix: average output values from zero

---
 sources/core/params.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/params.h b/sources/core/params.h
index a89fb93..f48ed3e 100644
--- a/sources/core/params.h
+++ b/sources/core/params.h
@@ -229,6 +229,7 @@ class params
           // input vector values.
           else if(outdim == 1)
           {
+            outvec[0] = 0.0;
             for(int i=0; i<indim; ++i) 
             { 
                 outvec[0] += invec[i]; 
-- 
2.43.0


From fa887f4711060bcac1844ebaaef385bf4664a8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 35/76] fix: upper bound of symmetrical confidence intervals

---
 sources/core/vertical_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/vertical_segment.cpp b/sources/core/vertical_segment.cpp
index 8b8ca79..6a395a0 100644
--- a/sources/core/vertical_segment.cpp
+++ b/sources/core/vertical_segment.cpp
@@ -125,7 +125,7 @@ void vertical_segment::get(int i, vec& x, vec& yl, vec& yu) const
 	case SYMMETRICAL_CONFIDENCE_INTERVAL:
 	    yl = y - row.segment(_parameters.dimX() + _parameters.dimY(),
 			         _parameters.dimY());
-	    yu = y - row.segment(_parameters.dimX() + _parameters.dimY(),
+	    yu = y + row.segment(_parameters.dimX() + _parameters.dimY(),
 			         _parameters.dimY());
 	    break;
 	
-- 
2.43.0


From 88295e30ea9d5e0838f2f3077fd264bfa9171889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 36/76] fix: quadprog++: do not share the multipliers of all
 solvers

---
 external/quadprog++/QuadProg++.cc | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index ed390c4..9790e42 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -160,8 +160,6 @@ void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, i
   } while (mid != ncut );
 }
 
-VectorXd g_u;
-
 double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
                                  Ref<const MatrixXd> CE, Ref<const VectorXd> ce0,
                                  Ref<const MatrixXd> CI_, Ref<const VectorXd> ci0_,
@@ -584,7 +582,6 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
     return std::numeric_limits<double>::max();
   }
 
-  g_u = u;
 
   if(active_set)
     *active_set = A.head(iq);
-- 
2.43.0


From a388571ba475bd8d372ff943c79b34c3e8f30fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 37/76] fix: rational_fitter_parallel: initialise the linear
 term of the quadratic program

---
 sources/plugins/rational_fitters/quadratic_program.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadratic_program.h b/sources/plugins/rational_fitters/quadratic_program.h
index 196a806..fa50a6b 100644
--- a/sources/plugins/rational_fitters/quadratic_program.h
+++ b/sources/plugins/rational_fitters/quadratic_program.h
@@ -99,7 +99,7 @@ class quadratic_program
          const int n = CI.cols();
 
          Eigen::MatrixXd G (m, m) ;
-         Eigen::VectorXd g (m) ;
+         Eigen::VectorXd g = Eigen::VectorXd::Zero(m) ;
          Eigen::VectorXd ci(n) ;
          Eigen::MatrixXd CE(m, 0) ;
          Eigen::VectorXd ce ;
-- 
2.43.0


From f5d3b8308d5daffab9e48046f31e8589fc41bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:21 +0000
Subject: [PATCH 38/76] fix: rational_fitter_parallel: lay out and free
 converted vertical segments as arrays

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index f9da136..7f93237 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -109,23 +109,24 @@ class rational_fitter_parallel : public fitter
             for(int i=0; i<dat->size(); ++i)
             {
                const vec x = dat->get(i);
+               double* segment = content + i * elem_size;
 
                for(int k=0; k<x.size(); ++k) {
-                  content[i + k] = x[k];
+                  segment[k] = x[k];
                }
                for(int k=0; k<dat->parametrization().dimY(); ++k) {
-                  content[i + k + dat->parametrization().dimX() + dat->parametrization().dimY()] =
+                  segment[k + dat->parametrization().dimX() + dat->parametrization().dimY()] =
                      (1.0 - args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
                }
                for(int k=0; k<dat->parametrization().dimY(); ++k) {
-                  content[i + k + dat->parametrization().dimX() + 2*dat->parametrization().dimY()] =
+                  segment[k + dat->parametrization().dimX() + 2*dat->parametrization().dimY()] =
                      (1.0 + args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
                }
             }
 
             ptr<vertical_segment> vs(new vertical_segment(dat->parametrization(),
                      dat->size(),
-                     std::shared_ptr<double>(content)));
+                     std::shared_ptr<double>(content, std::default_delete<double[]>())));
 
             d = vs;
          }
-- 
2.43.0


From 637bdd820d8ba1f9d9579aa171201a80d81ed3a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:05 +0000
Subject: [PATCH 39/76] fix: rational_fitter_parallel: choose among equally
 good fits independently of the schedule

---
 .../plugins/rational_fitters/quadprog_parallel.cpp   | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index 7f93237..6caaa85 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -164,11 +164,12 @@ class rational_fitter_parallel : public fitter
 
             double min_delta   = std::numeric_limits<double>::max();
             double min_l2_dist = std::numeric_limits<double>::max();
+            int    best_np     = 0;
             double mean_delta = 0.0;
             int nb_sol_found  = 0;
             int nb_sol_tested = 0;
 
-#pragma omp parallel for shared(r, args, nb_sol_found, nb_sol_tested, min_delta, mean_delta), schedule(dynamic,1)
+#pragma omp parallel for shared(r, args, nb_sol_found, nb_sol_tested, min_delta, min_l2_dist, best_np, mean_delta), schedule(dynamic,1)
             for(int j=1; j<i; ++j)
             {
                // Compute the number of coefficients in the numerator and in the denominator
@@ -218,9 +219,14 @@ class rational_fitter_parallel : public fitter
                      std::cout << std::endl;
 
                      // Get the solution with the minimum delta or the minimum L2 distance,
-                     // and update the main rational function r.
-                     if((use_delta && delta < min_delta) || (!use_delta && l2_dist < min_l2_dist))
+                     // and update the main rational function r. Equally good
+                     // solutions may be found in any order: take the one with
+                     // the largest numerator.
+                     const double score = use_delta ? delta : l2_dist;
+                     const double best  = use_delta ? min_delta : min_l2_dist;
+                     if(score < best || (score == best && temp_np > best_np))
                      {
+                        best_np     = temp_np ;
                         min_delta   = delta ;
                         min_l2_dist = l2_dist ;
                         r->setSize(temp_np, temp_nq);
-- 
2.43.0


From e3779993305e598af19cc5e6be4a4fc794c17b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 40/76] fix: start the numerator and denominator of rational
 functions from zero

---
 sources/core/rational_function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index bb6fbfd..3008be1 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -274,7 +274,7 @@ void rational_function_1d::resize(unsigned int np, unsigned int nq)
 // Get the p_i and q_j function
 vec rational_function_1d::p(const vec& x) const
 {
-	vec res(1) ;
+	vec res = vec::Zero(1) ;
 
 	const unsigned int np = _p_coeffs.size() ;
 	for(unsigned int i=0; i<np; ++i)
@@ -286,7 +286,7 @@ vec rational_function_1d::p(const vec& x) const
 }
 vec rational_function_1d::q(const vec& x) const 
 {
-	vec res(1) ;
+	vec res = vec::Zero(1) ;
 
 	const unsigned int np = _q_coeffs.size() ;
 	for(unsigned int i=0; i<np; ++i)
-- 
2.43.0


From 2f78a06fc14462c3e30ae1f26983cab01c84fb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:49 +0000
Subject: [PATCH 41/76] fix: rational functions: reject unreadable degrees

---
 sources/core/rational_function.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 3008be1..ac353c2 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -16,6 +16,7 @@
 #include <fstream>
 #include <limits>
 #include <algorithm>
+#include <cctype>
 #include <cmath>
 #include <vector>
 
@@ -60,7 +61,8 @@ bool rational_function_1d::load(std::istream& in)
 	{
 		for(int k=0; k<_parameters.dimX(); ++k)
 		{
-			in >> token;
+			int degree;
+			if(!(in >> degree) || !std::isspace(in.peek())) { return false; }
 		}
 
 		double coeff;
@@ -74,7 +76,8 @@ bool rational_function_1d::load(std::istream& in)
 	{
 		for(int k=0; k<_parameters.dimX(); ++k)
 		{
-			in >> token;
+			int degree;
+			if(!(in >> degree) || !std::isspace(in.peek())) { return false; }
 		}
 
 		double coeff;
-- 
2.43.0


From 2a7c7862709cad758fc0632ffac8daedf0b47b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:51 +0000
Subject: [PATCH 42/76] fix: reject function files with unwritten parts

---
 sources/core/plugins_manager.cpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index 08ae7a8..c689fab 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -187,6 +187,24 @@ function* plugins_manager::load_function(const std::string& filename)
     return NULL;
   }
 
+  // A part of the file that was never written reads as zeros, which could
+  // hide line ends and digits of a text file.
+  for(char c; file.get(c); )
+  {
+    if(c == '\0')
+    {
+      std::cerr << "<<ERROR>> \"" << filename << "\" is not a text file" << std::endl;
+      return NULL;
+    }
+  }
+  if(file.bad())
+  {
+    std::cerr << "<<ERROR>> unable to read file \"" << filename << "\"" << std::endl;
+    return NULL;
+  }
+  file.clear();
+  file.seekg(0);
+
   // Set the precision of the input
   file.precision(10);
 
-- 
2.43.0


From 820ed96ef554693de84b99faf3f1cc0856e3f700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:10 +0000
Subject: [PATCH 43/76] fix: reject text datasets with unwritten parts

---
 sources/core/args.h           | 5 +++++
 sources/core/data_storage.cpp | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/sources/core/args.h b/sources/core/args.h
index 7fd994b..0479b72 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -472,6 +472,11 @@ class arguments
 					std::getline(input, line);
 					std::stringstream linestream(line);
 
+					// Zeros, left by a lost write, hide line ends and digits.
+					if (line.find('\0') != std::string::npos) {
+						throw std::ios_base::failure("damaged header");
+					}
+
 					// Lines starting with '# ' are real comments and we ignore
 					// them.  Others are key/value associations that we want to use.
 					if (linestream.peek() != ' ')	{
diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 1796290..ce2b869 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -205,6 +205,12 @@ alta::data* alta::load_data_from_text(std::istream& input,
     std::getline(input, line) ;
     std::stringstream linestream(line) ;
 
+    // Zeros, left by a lost write, hide line ends and digits.
+    if(line.find('\0') != std::string::npos)
+    {
+      throw std::ios_base::failure("damaged text");
+    }
+
     // Discard comments and empty lines.
     if(line.empty() || linestream.peek() == '#')
     {
-- 
2.43.0


From 01b0b7cf2d89660e83ccf7d66e338dcb4215f500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:42 +0000
Subject: [PATCH 44/76] fix: reject null bytes in ASTM files

---
 sources/plugins/data_io/astm.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index 54415f2..7608a58 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -77,6 +77,11 @@ static arguments parse_header(std::istream& in) {
         // Extract the current line
         std::getline(in, line);
 
+        // Text never contains null bytes, parts that were lost on disk do.
+        if(key.find('\0') != std::string::npos || line.find('\0') != std::string::npos) {
+            throw std::ios_base::failure("null bytes in the ASTM header");
+        }
+
         // End of header
         if(key == "VARS") {
             args.update(key, std::string("[") + line + std::string("]"));
@@ -171,6 +176,10 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 	    }
 	} while(line.size() == 0 || line.rfind(',') == std::string::npos);
 
+        if(line.find('\0') != std::string::npos)
+        {
+            throw std::ios_base::failure("null bytes in an ASTM sample");
+        }
         std::replace(line.begin(), line.end(), ',', ' ');
 
         // Create a stream from the line data and extract it as
-- 
2.43.0


From 856e398fc087ceb43cb6fd075e6c2ffb5261fa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 45/76] fix: initialise the parameters of new models

---
 .../function.cpp                                   |  2 +-
 .../nonlinear_fresnel_retroschlick/function.cpp    |  2 +-
 .../plugins/nonlinear_fresnel_schlick/function.cpp |  2 +-
 sources/plugins/nonlinear_function_abc/function.h  |  6 +++---
 .../nonlinear_function_beckmann/function.cpp       |  4 ++--
 .../plugins/nonlinear_function_blinn/function.cpp  |  4 ++--
 .../nonlinear_function_lafortune/function.cpp      | 14 +++++++-------
 .../nonlinear_function_retrobeckmann/function.cpp  |  4 ++--
 .../nonlinear_function_retroblinn/function.cpp     |  4 ++--
 .../nonlinear_function_retroyoo/function.cpp       |  4 ++--
 .../function.cpp                                   |  4 ++--
 .../plugins/nonlinear_function_ward/function.cpp   |  6 +++---
 .../nonlinear_shadowing_schlick/function.cpp       |  2 +-
 .../plugins/nonlinear_shadowing_smith/function.cpp |  2 +-
 .../nonlinear_shadowing_walter_smith/function.cpp  |  2 +-
 15 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index 667bba3..ef86c87 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -29,7 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 schlick::schlick(const alta::parameters& params):
     nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
-    R.resize(params.dimY());
+    R.setZero(params.dimY());
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp b/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
index 5be6de8..ebec1f4 100644
--- a/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
@@ -29,7 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 retro_schlick::retro_schlick(const alta::parameters& params):
     nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
-    R.resize(params.dimY());
+    R.setZero(params.dimY());
 }
 
 vec retro_schlick::value(const vec& x) const
diff --git a/sources/plugins/nonlinear_fresnel_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
index 0db6611..d2cfc95 100644
--- a/sources/plugins/nonlinear_fresnel_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_schlick/function.cpp
@@ -29,7 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 schlick_fresnel::schlick_fresnel(const alta::parameters& params)
     : nonlinear_function(params)
 {
-    R.resize(params.dimY());
+    R.setZero(params.dimY());
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_function_abc/function.h b/sources/plugins/nonlinear_function_abc/function.h
index c04ee5b..37eddf0 100644
--- a/sources/plugins/nonlinear_function_abc/function.h
+++ b/sources/plugins/nonlinear_function_abc/function.h
@@ -52,9 +52,9 @@ class abc_function : public nonlinear_function
         : nonlinear_function(params)
     {
         // Update the length of the vectors
-        _a.resize(params.dimY());
-        _b.resize(params.dimY());
-        _c.resize(params.dimY());
+        _a.setZero(params.dimY());
+        _b.setZero(params.dimY());
+        _c.setZero(params.dimY());
     }
 
 		// Overload the function operator
diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index 6b5c8da..8f8a956 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -31,8 +31,8 @@ beckmann_function::beckmann_function(const alta::parameters& params)
     : nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
     // Update the length of the vectors
-    _a.resize(parametrization().dimY()) ;
-    _ks.resize(parametrization().dimY()) ;
+    _a.setZero(parametrization().dimY()) ;
+    _ks.setZero(parametrization().dimY()) ;
 }
 
 
diff --git a/sources/plugins/nonlinear_function_blinn/function.cpp b/sources/plugins/nonlinear_function_blinn/function.cpp
index fd46aa7..ce4aa5d 100644
--- a/sources/plugins/nonlinear_function_blinn/function.cpp
+++ b/sources/plugins/nonlinear_function_blinn/function.cpp
@@ -30,8 +30,8 @@ blinn_function::blinn_function(const alta::parameters& params)
     : nonlinear_function(params.set_input(1, params::COS_TH))
 {
     // Update the length of the vectors
-    _ks.resize(_parameters.dimY()) ;
-    _N.resize(_parameters.dimY()) ;
+    _ks.setZero(_parameters.dimY()) ;
+    _N.setZero(_parameters.dimY()) ;
 }
 
 
diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 50ca8f4..00497f4 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -35,11 +35,11 @@ lafortune_function::lafortune_function(const alta::parameters& params) :
 
     // Update the length of the vectors
     if(_isotropic)
-        _C.resize(_n*nY*2) ;
+        _C.setZero(_n*nY*2) ;
     else
-        _C.resize(_n*nY*3) ;
-    _N.resize(_n*nY) ;
-    _kd.resize(nY);
+        _C.setZero(_n*nY*3) ;
+    _N.setZero(_n*nY) ;
+    _kd.setZero(nY);
 
     for(int i=0; i<nY; ++i)
         _kd[i] = 0.0;
@@ -148,10 +148,10 @@ void lafortune_function::setNbLobes(int N)
 
     // Update the length of the vectors
 	 if(_isotropic)
-		 _C.resize(_n*_nY*2) ;
+		 _C.setZero(_n*_nY*2) ;
 	 else
-		 _C.resize(_n*_nY*3) ;
-    _N.resize(_n*_nY) ;
+		 _C.setZero(_n*_nY*3) ;
+    _N.setZero(_n*_nY) ;
 }
 
 //! Number of parameters to this non-linear function
diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 441689e..fabb7fa 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -32,8 +32,8 @@ retrobeckmann_function::retrobeckmann_function(const alta::parameters& params)
       _use_back_param(true)
 {
     // Update the length of the vectors
-    _a.resize(_parameters.dimY()) ;
-    _ks.resize(_parameters.dimY()) ;
+    _a.setZero(_parameters.dimY()) ;
+    _ks.setZero(_parameters.dimY()) ;
 }
 
 
diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index 848ad11..e6e71b4 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -30,8 +30,8 @@ retroblinn_function::retroblinn_function(const alta::parameters &params)
     : nonlinear_function(params)
 {
     // Update the length of the vectors
-    _ks.resize(_parameters.dimY()) ;
-    _N.resize(_parameters.dimY()) ;
+    _ks.setZero(_parameters.dimY()) ;
+    _N.setZero(_parameters.dimY()) ;
 }
 
 // Overload the function operator
diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 7d9f435..540dc0f 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -31,8 +31,8 @@ yoo_function::yoo_function(const alta::parameters& params)
     : nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
     // Update the length of the vectors
-    _lt.resize(_parameters.dimY()) ;
-    _kr.resize(_parameters.dimY()) ;
+    _lt.setZero(_parameters.dimY()) ;
+    _kr.setZero(_parameters.dimY()) ;
 }
 
 
diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index ec78502..94b35d1 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -32,8 +32,8 @@ spherical_gaussian_function::spherical_gaussian_function(const alta::parameters&
       _a(1.0), _type(Mirror)
 {
     // Update the length of the vectors
-    _n.resize(_parameters.dimY()) ;
-    _ks.resize(_parameters.dimY()) ;
+    _n.setZero(_parameters.dimY()) ;
+    _ks.setZero(_parameters.dimY()) ;
 }
 
 // Overload the function operator
diff --git a/sources/plugins/nonlinear_function_ward/function.cpp b/sources/plugins/nonlinear_function_ward/function.cpp
index 4761ef2..980f707 100644
--- a/sources/plugins/nonlinear_function_ward/function.cpp
+++ b/sources/plugins/nonlinear_function_ward/function.cpp
@@ -32,9 +32,9 @@ ward_function::ward_function(const alta::parameters& params)
       isotropic(false)
 {
     // Update the length of the vectors
-    _ax.resize(_parameters.dimY()) ;
-    _ay.resize(_parameters.dimY()) ;
-    _ks.resize(_parameters.dimY()) ;
+    _ax.setZero(_parameters.dimY()) ;
+    _ay.setZero(_parameters.dimY()) ;
+    _ks.setZero(_parameters.dimY()) ;
 }
 
 // Overload the function operator
diff --git a/sources/plugins/nonlinear_shadowing_schlick/function.cpp b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
index 4e62ef7..e149d67 100644
--- a/sources/plugins/nonlinear_shadowing_schlick/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
@@ -30,7 +30,7 @@ ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 schlick_masking::schlick_masking(const alta::parameters& params)
     : nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
-    w.resize(params.dimY());
+    w.setZero(params.dimY());
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index a27d2be..5d3dc2b 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -31,7 +31,7 @@ ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 smith::smith(const alta::parameters& params)
     : nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
-    w.resize(params.dimY());
+    w.setZero(params.dimY());
 }
 
 //! Load function specific files
diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index 00724e2..d24401a 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -27,7 +27,7 @@ WalterSmith::WalterSmith(const alta::parameters& params)
 SQRT_PI( 1.772453850905516 )
 #endif
 {
-    _alpha.resize(params.dimY());
+    _alpha.setZero(params.dimY());
 }
 
 
-- 
2.43.0


From b067cc5e5d442b74fbad1f941475e950cd9b9217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 46/76] fix: saving an EXR image does not use memory it could
 not get

---
 sources/plugins/data_io/EXR_IO.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 5b86436..7a4dd37 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -171,14 +171,16 @@ class t_EXR_IO
 			image.height = H;
 
 			header.num_channels = 3;
-			header.channels = (EXRChannelInfo *)malloc(sizeof(EXRChannelInfo) * header.num_channels);
+			std::vector<EXRChannelInfo> channels(header.num_channels);
+			std::vector<int> pixel_types(2*header.num_channels);
+			header.channels = channels.data();
 			// Must be (A)BGR order, since most of EXR viewers expect this channel order.
 			strncpy(header.channels[0].name, "B", 255); header.channels[0].name[strlen("B")] = '\0';
 			strncpy(header.channels[1].name, "G", 255); header.channels[1].name[strlen("G")] = '\0';
 			strncpy(header.channels[2].name, "R", 255); header.channels[2].name[strlen("R")] = '\0';
 
-			header.pixel_types = (int *)malloc(sizeof(int) * header.num_channels);
-			header.requested_pixel_types = (int *)malloc(sizeof(int) * header.num_channels);
+			header.pixel_types = pixel_types.data();
+			header.requested_pixel_types = pixel_types.data() + header.num_channels;
 			for (int i = 0; i < header.num_channels; i++) {
 				header.pixel_types[i] = TINYEXR_PIXELTYPE_FLOAT; // pixel type of input image
 				header.requested_pixel_types[i] = TINYEXR_PIXELTYPE_FLOAT; // pixel type of output image to be stored in .EXR
@@ -204,9 +206,6 @@ class t_EXR_IO
 				}
 			}
 
-			free(header.channels);
-			free(header.pixel_types);
-			free(header.requested_pixel_types);
 			return success;
 		}
 };
-- 
2.43.0


From 50a4df13d8ef0725e16fddbe11860e585905a805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:41 +0000
Subject: [PATCH 47/76] fix: do not ignore failed allocations in argument
 parsing

---
 sources/core/args.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/core/args.h b/sources/core/args.h
index 0479b72..6566c49 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -398,6 +398,7 @@ class arguments
 		  {
 			  std::vector<std::string> cmd_vec;
 			  std::stringstream stream(n);
+			  stream.exceptions(std::ios_base::badbit); // do not swallow bad_alloc
 #ifdef DEBUG_ARGS
 			  std::cout << "<<DEBUG>> create argument vector: [";
 #endif
@@ -471,6 +472,7 @@ class arguments
 					std::string line;
 					std::getline(input, line);
 					std::stringstream linestream(line);
+					linestream.exceptions(std::ios_base::badbit); // do not swallow bad_alloc
 
 					// Zeros, left by a lost write, hide line ends and digits.
 					if (line.find('\0') != std::string::npos) {
-- 
2.43.0


From 6f790df5f9ec5fb81fdffda9c9a4cb94fa105042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:51 +0000
Subject: [PATCH 48/76] fix: return and save the samples of scattered data

---
 sources/plugins/data_interpolants/rbf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_interpolants/rbf.cpp b/sources/plugins/data_interpolants/rbf.cpp
index 01a4ca9..49b611e 100644
--- a/sources/plugins/data_interpolants/rbf.cpp
+++ b/sources/plugins/data_interpolants/rbf.cpp
@@ -122,13 +122,13 @@ class rbf_interpolant : public data
 
 		virtual void save(const std::string& filename) const
 		{
+			_data->save(filename) ;
 		}
 
 		// Acces to data
 		virtual vec get(int id) const
 		{
-			vec res(parametrization().dimX() + parametrization().dimY()) ;
-			return res ;
+			return _data->get(id) ;
 		}
 		virtual vec operator[](int i) const
 		{
-- 
2.43.0


From f534ea518c2cd9da4e3acc833bf9f5627b23b027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:15 +0000
Subject: [PATCH 49/76] fix: the diffuse function has no parameters to return

---
 sources/plugins/nonlinear_function_diffuse/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index 2e6dbd4..ad5cd3c 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -135,7 +135,7 @@ vec diffuse_function::parameters() const
         res[i*3 + 0] = _kd[i];
     }
 #else
-    vec res(1);
+    vec res(0);
 #endif
     return res;
 }
@@ -172,7 +172,7 @@ vec diffuse_function::parametersJacobian(const vec& x) const
 			}
 		}
 #else
-	vec jac(1);
+	vec jac(0);
 #endif
 
     return jac;
-- 
2.43.0


From 9c3137774ad2d06f2032cd6755ac82929f202a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:15 +0000
Subject: [PATCH 50/76] fix: report a function file that cannot be loaded to
 Python

---
 sources/python/alta.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 8b23dc6..5c15c7f 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -25,6 +25,7 @@ namespace py = pybind11;
 
 // STL include
 #include <iostream>
+#include <stdexcept>
 
 // Local includes
 #include "wrapper_args.h"
@@ -70,9 +71,8 @@ static ptr<function> load_function_with_args(const std::string& filename, const
     return ptr<function>(plugins_manager::load_function(filename));
 }
 
-/* Loading a function object from file
- *
- * TODO: Add exceptions
+/* Loading a function object from file. An exception is raised when the file
+ * cannot be read or does not describe such a function.
  */
 static void load_from_file_with_args(const ptr<function>& func,
                                      const std::string& filename,
@@ -82,15 +82,16 @@ static void load_from_file_with_args(const ptr<function>& func,
    std::ifstream file;
    file.open(filename.c_str()) ;
    if(!file.is_open()) {
-      std::cerr << "<<ERROR>> unable to open file \"" << filename << "\"" << std::endl ;
-      return;
+      throw std::runtime_error("unable to open file \"" + filename + "\"");
    }
 
    // Parse the associated header
    arguments header = arguments::parse_header(file);
 
    // Load the function stream
-   func->load(file);
+   if(!func->load(file)) {
+      throw std::runtime_error("unable to load the function file \"" + filename + "\"");
+   }
 }
 static void load_from_file(const ptr<function>& func, const std::string& filename) {
 
-- 
2.43.0


From d9576a789532b60dde14124cb2dfaef4721838a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:21 +0000
Subject: [PATCH 51/76] fix: do not report a least square fit without finite
 coefficients

---
 sources/plugins/rational_fitters/leastsquare.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sources/plugins/rational_fitters/leastsquare.cpp b/sources/plugins/rational_fitters/leastsquare.cpp
index 1c0ba24..e2e6796 100644
--- a/sources/plugins/rational_fitters/leastsquare.cpp
+++ b/sources/plugins/rational_fitters/leastsquare.cpp
@@ -211,6 +211,14 @@ class rational_fitter_leastsquare : public fitter
       //       std::cout << "<<INFO>> LS error " << (A*x-Y).norm()/Y.norm() << std::endl;
          }
       } // iterations
+
+      // Degenerated systems (e.g. when all the values are null) do not have a
+      // solution.
+      if(!pq.allFinite())
+      {
+         std::cerr << "<<ERROR>> no finite solution to the least square problem" << std::endl ;
+         return false;
+      }
       
       vec p(np), q(nq);
       Eigen::VectorXd::Map(&p[0], np) = pq.head(np);
-- 
2.43.0


From d374cacbc29774428137c68f7a2ab585e43864fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:58 +0000
Subject: [PATCH 52/76] fix: look at all the inequalities when picking the
 worst ones

---
 external/quadprog++/QuadProg++.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index 9790e42..b585e73 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -131,7 +131,7 @@ void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, i
   typedef typename ValuesType::Index Index;
   using std::swap;
   Index mid;
-  Index n = values.size()-start;
+  Index n = values.size();
   Index first, last ;
 
   ncut--; // to fit the zero-based indices
@@ -385,7 +385,7 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
 
         // Pack worst inequalities right after the active set
         chunk_size = std::min(m,std::max(chunk_size,iq*2));
-        partial_sort(s,CI,ci0,iq,chunk_size-iq);
+        partial_sort(s,CI,ci0,iq,chunk_size);
 
         done_with_current_subset = true;
         continue;
-- 
2.43.0


From 9a2c5c84cff59185e843e29e82a0e4a741151a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:46 +0000
Subject: [PATCH 53/76] fix: bootstrap the functions without parameters with
 Ceres too

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 202a7ce..877253b 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -132,6 +132,8 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
         return false;
     }
 
+	 /* Bootstrap the function */
+	 nf->bootstrap(d, args);
 
 #ifndef DEBUG
 	 std::cout << "<<DEBUG>> number of parameters: " << nf->nbParameters() << std::endl;
@@ -141,9 +143,6 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
 		 return true;
 	 }
 
-	 /* Bootstrap the function */
-	 nf->bootstrap(d, args);
-
 	 /* the following starting values provide a rough fit. */
 	 vec p = nf->parameters();
 
-- 
2.43.0


From ceb4f37e2275bc1eb2b08d91d41cfd946b26b23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:50 +0000
Subject: [PATCH 54/76] fix: report that Ceres did not find a solution

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 877253b..ffa714d 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -178,6 +178,11 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
 	 std::cout << "<<INFO>> found parameters: " << p << std::endl;
 
 	 nf->setParameters(p);
+	 if(!summary.IsSolutionUsable())
+	 {
+		 std::cerr << "<<ERROR>> Ceres did not find a solution: " << summary.message << std::endl;
+		 return false;
+	 }
 	 return true;
 }
 
-- 
2.43.0


From 212c501669b7e9c64e1d30bf3583b27b704d85a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:07 +0000
Subject: [PATCH 55/76] fix: stop the Eigen search that starts out of the
 bounds

---
 sources/plugins/nonlinear_fitter_eigen/fitter.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_fitter_eigen/fitter.cpp b/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
index 73967da..50c3c2f 100644
--- a/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_eigen/fitter.cpp
@@ -359,7 +359,13 @@ bool nonlinear_fitter_eigen::fit_data(const ptr<data>& d, ptr<function>& fit, co
 		 EigenFunctor functor(nf, d, args.is_defined("fit-with-cosine"));
 		 Eigen::LevenbergMarquardt<EigenFunctor> lm(functor);
 
-		 info = lm.minimize(x);
+		 // A search that starts out of the bounds stops here: 'minimize' would go
+		 // on with residuals that were not evaluated.
+		 info = lm.minimizeInit(x);
+		 if(info != Eigen::LevenbergMarquardtSpace::UserAsked)
+		 {
+			 info = lm.minimize(x);
+		 }
 
 		 if(info == Eigen::LevenbergMarquardtSpace::ImproperInputParameters)
 		 {
-- 
2.43.0


From f5bde6b524c487cd1ddd347f39f63227c92a22d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:38 +0000
Subject: [PATCH 56/76] fix: report the NLopt searches that leave the domain of
 the function

---
 sources/plugins/nonlinear_fitter_nlopt/fitter.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
index a5ea002..97cffc6 100644
--- a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
@@ -290,7 +290,12 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 	std::cout << p << std::endl;
 	res = nlopt_optimize(opt, &p[0], &f_end);
 
-	if(res > 0)
+	if(res > 0 && !(std::isfinite(f_end) && p.allFinite()))
+	{
+		std::cerr << "<<ERROR>> Nl-Opt Fitter. the search left the domain of the function" << std::endl;
+		res = NLOPT_FAILURE;
+	}
+	else if(res > 0)
 	{
 		std::cout << "<<INFO>> optimized distance: " << f_end << std::endl;
 		std::cout << "<<INFO>> found parameters: " << p << std::endl;
-- 
2.43.0


From d7fbe849ba313c5d38664274f2803f22128660f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:17 +0000
Subject: [PATCH 57/76] fix: count the eigenvalues below zero as null ones

---
 sources/plugins/rational_fitters/eigen.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/rational_fitters/eigen.cpp b/sources/plugins/rational_fitters/eigen.cpp
index 2e2997f..239cfa4 100644
--- a/sources/plugins/rational_fitters/eigen.cpp
+++ b/sources/plugins/rational_fitters/eigen.cpp
@@ -180,8 +180,9 @@ class rational_fitter_eigen : public fitter
 				double min_val = std::numeric_limits<double>::max() ;
 				for(int i=0; i<solver.eigenvalues().size(); ++i)
 				{
-					double value = solver.eigenvalues()[i] ;
-					if(value >= 0 && value < min_val)
+					// The matrix is positive: an eigenvalue below zero is a null one
+					double value = std::abs(solver.eigenvalues()[i]) ;
+					if(value < min_val)
 					{
 						min_id  = i ;
 						min_val = value ;
-- 
2.43.0


From 171ee9c05c4bff3ffc59d37716701041b0319087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:27 +0000
Subject: [PATCH 58/76] fix: do not report the quadratic programs that the
 solver gave up on

---
 sources/plugins/rational_fitters/quadprog.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadprog.cpp b/sources/plugins/rational_fitters/quadprog.cpp
index e1f4f1b..e548484 100644
--- a/sources/plugins/rational_fitters/quadprog.cpp
+++ b/sources/plugins/rational_fitters/quadprog.cpp
@@ -386,7 +386,9 @@ class rational_fitter_quadprog : public fitter
                Xf << std::setprecision(16) << x[k] << "\n";
          }
 
-         bool solves_qp = !(cost == std::numeric_limits<double>::infinity());
+         // The solver returns +inf when there is no solution, and the greatest
+         // value when it gave up.
+         bool solves_qp = cost < std::numeric_limits<double>::max();
          for(int i=0; i<np+nq; ++i)
          {
             const double v = x[i];
-- 
2.43.0


From 14591dbe341f98dffff9223a3ec94e2fc25d4e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:52 +0000
Subject: [PATCH 59/76] fix: read the starting point of a fit from a function
 file

---
 sources/core/function.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index c2b4e84..9ab5d06 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -35,6 +35,17 @@ void function::bootstrap(const ptr<data>, const arguments& args)
     std::ifstream in(args["bootstrap"].c_str());
     if(in.is_open())
     {
+      // Skip the header of the file
+      std::string line;
+      while(std::getline(in, line) && line != "#ALTA HEADER END") { }
+
+      // Without a header, the function starts with the file
+      if(!in)
+      {
+        in.clear();
+        in.seekg(0);
+      }
+
       if(!load(in))
 			{
 				std::cerr << "<<ERROR>> cannot bootstrap from file \"" << args["bootstrap"] << "\"" << std::endl;
-- 
2.43.0


From caa77457053d49878316912e81804dceab234caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:10 +0000
Subject: [PATCH 60/76] fix: an empty word on the command line is no end of a
 vector

---
 sources/core/args.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 6566c49..778ce28 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -37,6 +37,12 @@ class arguments
   private:
     typedef std::pair<const std::string, std::string> pair_type;
 
+    //! \brief does this word end the vector "[ ... ]" it is part of ?
+    static bool is_closed(const std::string& word)
+    {
+      return !word.empty() && word[word.size()-1] == ']';
+    }
+
 	public: // functions
 
 		// Constructor and destructor
@@ -70,12 +76,12 @@ class arguments
                 {
                     --i;
                 }
-                else if(next[0] == '[' && next[next.size()-1] != ']')
+                else if(next[0] == '[' && !is_closed(next))
                 {
                     data.append(next);
 
                     ++i;
-                    while(i < argc && next[next.size()-1] != ']')
+                    while(i < argc && !is_closed(next))
                     {
                         next = argv[i] ;
                         data.append(" ");
-- 
2.43.0


From 6d8afd51177c922d0112c6095bdd4d15b2753606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:04 +0000
Subject: [PATCH 61/76] fix: convert the samples when a fit changes the
 parametrization of the data

---
 sources/core/data.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/sources/core/data.h b/sources/core/data.h
index ecd7797..c02d5a4 100644
--- a/sources/core/data.h
+++ b/sources/core/data.h
@@ -149,8 +149,22 @@ class data_params : public data
       //TODO
       //clustering<data>(d, _nY, d->parametrization(), new_param, _data);
 
-      std::cout << "<<INFO>> clustering left " << _data.size() << "/" << d->size() << " elements" << std::endl;
-      save(std::string("cluster.gnuplot"));
+      const int nX  = d->parametrization().dimX();
+      const int nY  = d->parametrization().dimY();
+      const int dim = _parameters.dimX();
+
+      for(int i=0; i<d->size(); ++i)
+      {
+        const vec x = d->get(i);
+        vec y(dim + nY);
+        params::convert(&x[0], d->parametrization().input_parametrization(), new_param, &y[0]);
+        y.tail(nY) = x.segment(nX, nY);
+        _data.push_back(y);
+
+        _min = (i == 0) ? vec(y.head(dim)) : vec(_min.cwiseMin(y.head(dim)));
+        _max = (i == 0) ? vec(y.head(dim)) : vec(_max.cwiseMax(y.head(dim)));
+      }
+      _size = _data.size();
     }
 
     virtual vec value(const vec&) const
@@ -166,7 +180,7 @@ class data_params : public data
 
     virtual void set(int i, const vec& x)
     {
-      this->set(i, x);
+      _data[i] = x;
     }
 
   protected: // data
-- 
2.43.0


From 9002134b72618ea2e436d0599313211715242bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:39 +0000
Subject: [PATCH 62/76] fix: fit2stat: print the errors weighted by both
 cosines

---
 sources/softs/fit2stat/fit2stat.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index b5cc02d..1609e8b 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -667,8 +667,8 @@ main(int argc, char* argv[])
         fwriter << "RMSE :" << rmse << std::endl;
         fwriter << "MSE * cos(theta_light) :" << w_cosine_light_mse << std::endl;
         fwriter << "RMSE * cos(theta_light) :" << w_cosine_light_rmse << std::endl;
-        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_mse << std::endl;
-        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_rmse << std::endl;
+        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_view_mse << std::endl;
+        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_view_rmse << std::endl;
         fwriter << std::endl;
 
         fwriter.close();
-- 
2.43.0


From 00d95360e67f0c6ffda56124d1efd8da0928f2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:39 +0000
Subject: [PATCH 63/76] fix: data2data: look the samples of a grid up

---
 sources/softs/data2data/main.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index e128f48..a01b641 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -278,7 +278,13 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
 // Convert D_IN to D_OUT according to ARGS.
 static void convert(ptr<data> d_in, ptr<data> d_out, const arguments& args)
 {
-	if(dynamic_pointer_cast<vertical_segment>(d_out) || args.is_defined("splat"))
+	// A grid has samples of its own. When the input can be interpolated, their
+	// values are looked up, instead of storing the input's samples in its place.
+	const bool is_grid = args["out-data"] == "data_grid"
+      && !dynamic_pointer_cast<vertical_segment>(d_in);
+
+	if((dynamic_pointer_cast<vertical_segment>(d_out) && !is_grid)
+     || args.is_defined("splat"))
       convert_vertical_segment(d_in, d_out,
                                args.is_defined("verbose"),
                                args.is_defined("all-values"));
-- 
2.43.0


From 6c93d0d758e131d45d2f6a7167eff49c66e8290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:39 +0000
Subject: [PATCH 64/76] fix: BRDF slices: one domain, checked for the
 coordinates looked up

---
 sources/plugins/data_io/slice.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index e81b694..df2d165 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -74,7 +74,6 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args);
 class BrdfSlice : public data {
   private:
 		const int _width, _height, _slice;
-		vec _max, _min;
 		double _phi;
 		double* _data;
 		bool _reverse;
@@ -174,8 +173,8 @@ class BrdfSlice : public data {
 
 			// Safeguard. We can use either asserting or returning zero in case
 			// the query values are not within reach.
-			if(_x[0] > _max[0] || x[0] < _min[0] || x[1] > _max[1] || x[1] < _min[1] ||
-				alta::isnan(_x[0]) || alta::isnan(x[1])) {
+			if(_x[0] > _max[0] || _x[0] < _min[0] || _x[1] > _max[1] || _x[1] < _min[1] ||
+				alta::isnan(_x[0]) || alta::isnan(_x[1])) {
 					vec res = vec::Zero(3);
 					return res;
 			}
-- 
2.43.0


From 9ceee7e80311a51a9dd60a723ae54e37d0b451fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:39 +0000
Subject: [PATCH 65/76] fix: UTIA: directions below the hemisphere have no
 samples

---
 sources/plugins/data_io/utia.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index f96c74a..91da41a 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -210,7 +210,7 @@ public:
 
 
 		// Check is the angular configuration is above the hemisphere
-		if(theta_i > PI2 || theta_v > PI2) {
+		if(!(theta_i >= 0.0 && theta_i <= PI2 && theta_v >= 0.0 && theta_v <= PI2)) {
 			RGB[0] = 0.0;
 			RGB[1] = 0.0;
 			RGB[2] = 0.0;
-- 
2.43.0


From abb0090452cdcad12f2f802a4ba3d0882cbfb65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:39 +0000
Subject: [PATCH 66/76] fix: a negative number is the value of the option
 before it

---
 sources/core/args.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 778ce28..2b49352 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -43,6 +43,12 @@ class arguments
       return !word.empty() && word[word.size()-1] == ']';
     }
 
+    //! \brief is this word, that starts with a dash, a negative number ?
+    static bool is_number(const std::string& word)
+    {
+      return word.size() > 1 && word.find_first_of("0123456789.", 1) == 1;
+    }
+
 	public: // functions
 
 		// Constructor and destructor
@@ -72,7 +78,7 @@ class arguments
             if(++i < argc)
             {
                 std::string next(argv[i]) ;
-                if(next[0] == '-')
+                if(next[0] == '-' && !is_number(next))
                 {
                     --i;
                 }
-- 
2.43.0


From 5c9bffd30ea30773f15218947108a5e6a4e4ce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:39 +0000
Subject: [PATCH 67/76] fix: --dt-max: the lower bound is the lower one

---
 sources/core/data_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index ce2b869..4c2a08d 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -129,7 +129,7 @@ static void read_confidence_interval(std::istream& input,
         }
         else if(args.is_defined("dt-max"))
         {
-            v(dimX +   dimY+i) = v(dimX + i) + std::max(v(dimX + i) * min_dt, min_dt);
+            v(dimX +   dimY+i) = v(dimX + i) + std::min(v(dimX + i) * min_dt, min_dt);
             v(dimX + 2*dimY+i) = v(dimX + i) + std::max(v(dimX + i) * max_dt, max_dt);
         }
         else
-- 
2.43.0


From f5031f8081c5d16fad9933d3860787ab3a7ee831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:39 +0000
Subject: [PATCH 68/76] fix: --data-correct-cosine: divide values and intervals
 by both cosines

---
 sources/core/data_storage.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 4c2a08d..98509f1 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -39,20 +39,17 @@ static bool cosine_correction(vecref v, unsigned int dimX, unsigned int dimY,
 {
     using namespace alta;
 
-    assert(v.size() == dimX + dimY);
+    assert(v.size() == dimX + 3 * dimY);
 
-    // Correction of the data by 1/cosine(theta_L)
+    // Correction of the data, and of its intervals, by the product of both cosines
     double factor = 1.0;
     double cart[6];
     params::convert(&v(0), in_param, params::CARTESIAN, cart);
     if(cart[5] > 0.0 && cart[2] > 0.0)
     {
-        factor = 1.0/cart[5]*cart[2];
-        for(unsigned int i = 0; i < dimY; ++i)
+        factor = cart[5]*cart[2];
+        for(unsigned int i = 0; i < 3 * dimY; ++i)
         {
-            std::cout << "i = " << i << " dimx = " << dimX
-                      << " + = " << i + dimX << " | " << v.size()
-                      << std::endl;
             v(i + dimX) /= factor;
         }
         return true;
@@ -263,8 +260,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
       }
       else if (args.is_defined("data-correct-cosine"))
       {
-          if (!cosine_correction(v.segment(0, dim.first + dim.second),
-                                 dim.first, dim.second, in_param))
+          if (!cosine_correction(v, dim.first, dim.second, in_param))
               content.resize(start);
       }
     }
-- 
2.43.0


From 4def8857f509f7ef6d32b766273353928d9e7ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:39 +0000
Subject: [PATCH 69/76] fix: grids: use the closest cell outside of the domain

---
 sources/plugins/data_interpolants/grid.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index dcc305a..7a25df9 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -233,7 +233,10 @@ class BrdfGrid : public vertical_segment {
 
          std::vector<int> k(parametrization().dimX());
          for(int i = 0; i < parametrization().dimX(); ++i) {
-            k[i] = floor((_size[i]-1)*(x[i]-_min[i]) / (_max[i]-_min[i]));
+            const double t = floor((_size[i]-1)*(x[i]-_min[i]) / (_max[i]-_min[i]));
+
+            // Outside of the domain, use the closest cell.
+            k[i] = t > 0.0 ? int(std::min(t, std::max(_size[i]-2.0, 0.0))) : 0;
          }
          return k;
       }
-- 
2.43.0


From d5730c8fd018cfe15daa76dd2c106685d0e8fba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:39 +0000
Subject: [PATCH 70/76] fix: reject files whose dimension is not that of their
 parametrization

---
 sources/core/data_storage.cpp    | 21 ++++++++++++++-------
 sources/core/plugins_manager.cpp |  8 ++++++++
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 98509f1..ec00b06 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -57,6 +57,18 @@ static bool cosine_correction(vecref v, unsigned int dimX, unsigned int dimY,
     else return false;
 }
 
+// Raise an exception when DIM, found in a header, is not valid, or is not the
+// dimension of IN_PARAM.
+static void check_dimensions(const std::pair<int, int>& dim,
+                             alta::params::input in_param)
+{
+    const int dimX = alta::params::dimension(in_param);
+    if(dim.first <= 0 || dim.second <= 0 || (dimX > 0 && dim.first != dimX))
+    {
+        throw std::ios_base::failure("invalid data dimensions");
+    }
+}
+
 // Return true if V is between MIN and MAX.
 static bool within_bounds(const vecref v,
                           const vec& min, const vec& max)
@@ -168,9 +180,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
   params::output out_param = params::parse_output(header.get_string("PARAM_OUT", "UNKNOWN_OUTPUT"));
 
   std::pair<int, int> dim = header.get_pair<int>("DIM");
-  if(dim.first <= 0 || dim.second <= 0) {
-    throw std::ios_base::failure("invalid data dimensions");
-  }
+  check_dimensions(dim, in_param);
   size_t row_count = size_t(dim.first) + 3 * size_t(dim.second);
 
   // Samples are filtered only when the arguments ask for it.
@@ -395,10 +405,7 @@ alta::data* alta::load_data_from_binary(std::istream& in, const alta::arguments&
     }
 
     std::pair<int, int> dim = header.get_pair<int>("DIM");
-    if(dim.first <= 0 || dim.second <= 0)
-    {
-        throw std::ios_base::failure("invalid data dimensions");
-    }
+    check_dimensions(dim, params::parse_input(header["PARAM_IN"]));
 
     auto kind = ci_kind_from_number(header.get_int("VS"));
 
diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index c689fab..cfff03d 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -249,6 +249,14 @@ function* plugins_manager::load_function(const std::string& filename)
     return NULL;
   }
 
+  // The coordinates must be those of the parametrization
+  const int dimX = params::dimension(param_in);
+  if(dimX > 0 && dim.first != dimX)
+  {
+    std::cerr << "<<ERROR>> invalid function dimensions" << std::endl;
+    return NULL;
+  }
+
   parameters params(dim.first, dim.second, param_in, param_out);
 
   // Create the function from the command line
-- 
2.43.0


From 55d29019edf7720ba519a7d904c9fbf85ea04f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:58 +0000
Subject: [PATCH 71/76] fix: let Python functions be saved, and data be made,
 with an arguments object

---
 sources/python/alta.cpp       | 9 ++++++++-
 sources/python/wrapper_data.h | 4 +++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 5c15c7f..33e584d 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -184,6 +184,13 @@ static vec get_function_params(ptr<function>& f) {
 	return res;
 }
 
+/* Save a function object to a file, with the options of an arguments object.
+ */
+static void save_function_with_args(const ptr<function>& f, const std::string& filename,
+                                    const python_arguments& args) {
+   f->save(filename, args);
+}
+
 /* Save a function object to a file, without any argument option. This will save the function
  * object in ALTA's format.
  */
@@ -315,7 +322,7 @@ inline void register_function(py::module& m) {
 		.def("value",    &function::value)
 		.def("load",     &load_from_file)
 		.def("load",     &load_from_file_with_args)
-		.def("save",     &function::save)
+		.def("save",     &save_function_with_args)
       .def("save",     &save_function_without_args)
 		.def("set",      &set_function_params)
 		.def("get",      &get_function_params);
diff --git a/sources/python/wrapper_data.h b/sources/python/wrapper_data.h
index c2a37a4..8b260dd 100644
--- a/sources/python/wrapper_data.h
+++ b/sources/python/wrapper_data.h
@@ -19,6 +19,8 @@ namespace py = pybind11;
 #include <core/ptr.h>
 #include <core/data.h>
 
+#include "wrapper_args.h"
+
 using namespace alta;
 
 /* Create a data object from a plugin's name and the data filename. This
@@ -33,7 +35,7 @@ static ptr<data> load_data(const std::string& plugin_name,
 static ptr<data> get_data_with_args(const std::string& plugin_name,
                                     size_t size,
                                     const parameters& params,
-                                    const arguments& args)
+                                    const python_arguments& args)
 {
   return plugins_manager::get_data(plugin_name, size, params, args);
 }
-- 
2.43.0


From d85c60fc14fd34b78d7114ce1f66b6c368dbc2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:32:58 +0000
Subject: [PATCH 72/76] fix: give the quadprog and eigen fitters their default
 options from the start

---
 sources/plugins/rational_fitters/eigen.cpp    | 2 +-
 sources/plugins/rational_fitters/quadprog.cpp | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/rational_fitters/eigen.cpp b/sources/plugins/rational_fitters/eigen.cpp
index 239cfa4..b38229c 100644
--- a/sources/plugins/rational_fitters/eigen.cpp
+++ b/sources/plugins/rational_fitters/eigen.cpp
@@ -45,7 +45,7 @@ class rational_fitter_eigen : public fitter
 
 	public: //methods
 
-		rational_fitter_eigen() 
+		rational_fitter_eigen() : _np(10), _nq(10)
 		{
 		}
 		~rational_fitter_eigen() 
diff --git a/sources/plugins/rational_fitters/quadprog.cpp b/sources/plugins/rational_fitters/quadprog.cpp
index e548484..cccbace 100644
--- a/sources/plugins/rational_fitters/quadprog.cpp
+++ b/sources/plugins/rational_fitters/quadprog.cpp
@@ -70,8 +70,10 @@ class rational_fitter_quadprog : public fitter
 
    public: // methods
 
-      rational_fitter_quadprog() : _boundary(1.0)
+      rational_fitter_quadprog()
       {
+         // The options have their default values until they are set.
+         set_parameters(arguments());
       }
       ~rational_fitter_quadprog()
       {
-- 
2.43.0


From 601d3b57ecb8fff2fd51659834def88259c6c949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:28 +0000
Subject: [PATCH 73/76] fix: reject abc function files in a parametrization
 with more coordinates than the function

---
 .../plugins/nonlinear_function_abc/function.cpp    | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 090820e..7bd0023 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -211,16 +211,18 @@ bool abc_function::load(std::istream& in)
 	}
 	in >> token;
 
-	setParametrization(alta::parameters(_parameters.dimX(), _parameters.dimY(),
-                                      params::parse_input(token),
-                                      _parameters.output_parametrization()));
-
-	if(params::dimension(_parameters.input_parametrization()) != 1)
+	const params::input input = params::parse_input(token);
+	if(params::dimension(input) != 1)
 	{
 		std::cerr << "<<ERROR>> the parametrization specifed in the file for the ABC model is incorrect" << std::endl;
-		if(_parameters.input_parametrization() == params::UNKNOWN_INPUT) { return false; }
+
+		// A function of fewer coordinates cannot be evaluated there.
+		if(input == params::UNKNOWN_INPUT || params::dimension(input) > _parameters.dimX()) { return false; }
 	}
 
+	setParametrization(alta::parameters(_parameters.dimX(), _parameters.dimY(), input,
+                                      _parameters.output_parametrization()));
+
 	// Parse the lobe
 	for(int i=0; i<parametrization().dimY(); ++i)
 	{
-- 
2.43.0


From 205bec8229e3b5d2607608660f77dc0fb41dd521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:43 +0000
Subject: [PATCH 74/76] fix: release the polynomials a rational function drops

---
 sources/core/rational_function.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/core/rational_function.h b/sources/core/rational_function.h
index a45fd12..21bda70 100644
--- a/sources/core/rational_function.h
+++ b/sources/core/rational_function.h
@@ -236,6 +236,10 @@ class rational_function : public function
 		//! \brief Clear the vector of 1D rational functions.
 		virtual void clear()
 		{
+			for(unsigned int i=0; i < rs.size(); i++)
+			{
+				delete rs[i];
+			}
 			rs.clear();
 			rs.resize(_parameters.dimY());
 		}
-- 
2.43.0


From 2ffc31e3a07275430056027dea86f3d7c19bf3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:43 +0000
Subject: [PATCH 75/76] fix: release the header and the message of an EXR file
 that cannot be read

---
 sources/plugins/data_io/EXR_IO.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 7a4dd37..c78bcc1 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -49,7 +49,7 @@ class t_EXR_IO
 
 			/* Check the different part of loading */
 			int _r = -1;
-			const char* _err = "";
+			const char* _err = NULL;
 
 			/* Load the EXR version using TinyEXR */
 			EXRVersion _version;
@@ -67,7 +67,11 @@ class t_EXR_IO
 			_r = ParseEXRHeaderFromMemory(&_header, &_version, &_memory[0], _memory.size(), &_err);
 			if(_r != TINYEXR_SUCCESS) {
 				std::cerr << "<<ERROR>> Could not load EXR header from stream" << std::endl;
-				std::cerr << "<<ERROR>> " << _err << std::endl;
+				if(_err != NULL) {
+					std::cerr << "<<ERROR>> " << _err << std::endl;
+					FreeEXRErrorMessage(_err);
+				}
+				FreeEXRHeader(&_header);
 				return false;
 			} else {
 				std::cout << "<<DEBUG>> Loading a " << _header.num_channels << " channels EXR file" << std::endl;
@@ -85,7 +89,11 @@ class t_EXR_IO
 			_r = LoadEXRImageFromMemory(&_image, &_header, &_memory[0], _memory.size(), &_err);
 			if (_r != TINYEXR_SUCCESS) {
 				std::cerr << "<<ERROR>> Could not load EXR image from stream" << std::endl;
-				std::cerr << "<<ERROR>> " << _err << std::endl;
+				if(_err != NULL) {
+					std::cerr << "<<ERROR>> " << _err << std::endl;
+					FreeEXRErrorMessage(_err);
+				}
+				FreeEXRHeader(&_header);
 				return false;
 			} else {
 				std::cout << "<<DEBUG>> Loading a " << _image.width << "x" << _image.height << " EXR file" << std::endl;
-- 
2.43.0


From d53cb9db81f20dc1e4825177a2867dd87714d3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:06:43 +0000
Subject: [PATCH 76/76] fix: release the positions of the samples with the
 interpolated data

---
 sources/plugins/data_interpolants/rbf.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_interpolants/rbf.cpp b/sources/plugins/data_interpolants/rbf.cpp
index 49b611e..3cdbf83 100644
--- a/sources/plugins/data_interpolants/rbf.cpp
+++ b/sources/plugins/data_interpolants/rbf.cpp
@@ -68,6 +68,9 @@ class rbf_interpolant : public data
 		// Interpolation
 #ifndef USE_DELAUNAY
 		flann::Index< flann::L2<double> >* _kdtree;
+
+		// The positions of the samples, which the index refers to
+		std::vector<double> _points;
 #endif
 		int _knn;
 
@@ -97,8 +100,8 @@ class rbf_interpolant : public data
         std::cout << "<<DEBUG>> number of points in input: " << _data->size() << std::endl;
 #else
         // Update the KDtreee by inserting all points
-        double* _d = new double[parametrization().dimX()*_data->size()];
-        flann::Matrix<double> pts(_d, _data->size(), parametrization().dimX());
+        _points.resize(parametrization().dimX()*_data->size());
+        flann::Matrix<double> pts(_points.data(), _data->size(), parametrization().dimX());
         for(int i=0; i<_data->size(); ++i)
         {
             vec x = _data->get(i);
-- 
2.43.0

