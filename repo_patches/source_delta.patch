From 502d2589b693f6a670c88aab5ff2f5bc29a046af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:25 +0000
Subject: [PATCH 1/7] fix: EM.PQ_vectorize no longer overwrites the caller's
 aspect ratios

---
 rockphypy/EM.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index eb34cc6..7cd223f 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -492,7 +492,7 @@ class EM:
         P = np.empty(dim)
         Q = np.empty(dim)
         theta = np.empty(dim)
-        alpha_ = alpha # copy and modfiy
+        alpha_ = np.array(alpha, dtype=float) # copy and modify, the caller's array is left untouched
         alpha_[alpha==1]=0.999 # when alpha_ is 1, the f is nan
 
         theta[alpha_<1]=alpha_[alpha_<1]/(1.0 - alpha_[alpha_<1]**2)**(3.0/2.0) * (np.arccos(alpha_[alpha_<1]) - alpha_[alpha_<1]*np.sqrt(1.0 - alpha_[alpha_<1]**2))
-- 
2.43.0


From e6e3becaf1a6cf11b3857fdb6f639700d8ee221b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:25 +0000
Subject: [PATCH 2/7] fix: Fluid.Gassmann returns a copy of the shear modulus
 instead of the caller's array

---
 rockphypy/Fluid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rockphypy/Fluid.py b/rockphypy/Fluid.py
index e20e80e..e2cef75 100644
--- a/rockphypy/Fluid.py
+++ b/rockphypy/Fluid.py
@@ -1,3 +1,4 @@
+import copy
 import scipy.special as sp
 import numpy as np
 from rockphypy.utils import utils
@@ -261,7 +262,7 @@ class Fluid:
         A=(1-K_dry/K_mat)**2
         B=phi/Kf+(1-phi)/K_mat-K_dry/(K_mat**2)
         K_sat=K_dry+A/B
-        G_sat = G_dry # At low frequencies, Gassmann’s relations predict no change in the shear modulus between dry and saturated patches
+        G_sat = copy.copy(G_dry) # a copy, so the result does not alias the input. At low frequencies, Gassmann’s relations predict no change in the shear modulus between dry and saturated patches
         return K_sat,G_sat
 
     @staticmethod
-- 
2.43.0


From 53fc94ba26f77af6873ec5076e741506da3a0aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:21 +0000
Subject: [PATCH 3/7] fix: EM.SC and EM.SC_flex no longer hand back the
 caller's arrays when no iteration is made

---
 rockphypy/EM.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index 7cd223f..e49ee76 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -2,6 +2,7 @@
 # -*-coding:utf-8 -*-
 
 
+import copy
 import numpy as np
 from rockphypy.utils import utils
 #import Anisotropy
@@ -598,8 +599,9 @@ class EM:
         float or array-like
             K_eff,G_eff (GPa): effective elastic moduli
         """     
-        K_eff=Ks
-        G_eff=Gs
+        # start from copies so that the result never is the caller's array (iter_n=0)
+        K_eff=copy.copy(Ks)
+        G_eff=copy.copy(Gs)
         for i in range(iter_n):
             K_eff = (1/Ks + (1/K_eff+3/(4*G_eff))*phi) **-1
             G_eff= (1/Gs + (15*K_eff+20*G_eff)/(9*K_eff+8*G_eff) *phi/G_eff )**-1
@@ -887,8 +889,9 @@ class EM:
             K_eff, G_eff (GPa): Effective elastic moduli
         """    
         
-        K_eff=Km
-        G_eff=Km
+        # start from copies so that the result never is the caller's array (iter_n=0)
+        K_eff=copy.copy(Km)
+        G_eff=copy.copy(Km)
         for i in range(iter_n):
             nu = 0.5* (3*K_eff- 2*G_eff)/(3*K_eff+G_eff) # Poisson's ratio
             S1 = 1/3 * (1+nu)/( 1-nu)
-- 
2.43.0


From 841079c5805cb6505a974b2f8869befde4e39972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:21 +0000
Subject: [PATCH 4/7] fix: QI plots draw on their own axes, not on whatever
 figure is current

---
 rockphypy/QI.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/rockphypy/QI.py b/rockphypy/QI.py
index 99bf26e..70913f5 100644
--- a/rockphypy/QI.py
+++ b/rockphypy/QI.py
@@ -243,8 +243,8 @@ class QI:
         ax.set_ylabel('Vp')
         ax.set_xlabel('Porosity')
         ax.grid(ls='--',alpha=0.7)            
-        plt.scatter(self.phi,self.Vp,c=1-self.Vsh,vmin=0, vmax=1,edgecolors='grey',s=100,alpha=1,cmap=cmap)
-        cbar=plt.colorbar()
+        sc=ax.scatter(self.phi,self.Vp,c=1-self.Vsh,vmin=0, vmax=1,edgecolors='grey',s=100,alpha=1,cmap=cmap)
+        cbar=fig.colorbar(sc,ax=ax)
         cbar.set_label(r'$\rm V_{Sand}$')
         return fig
     
@@ -302,10 +302,10 @@ class QI:
             density=QI.normalize(density)
             # extremely low density is mapped to 0
             density[density<0.0001]=0
-            plt.pcolormesh(grid[0],grid[1], density.T, cmap=cmap_kde,shading='auto')
-            cbar=plt.colorbar()
+            mesh=ax.pcolormesh(grid[0],grid[1], density.T, cmap=cmap_kde,shading='auto')
+            cbar=fig.colorbar(mesh,ax=ax)
             cbar.set_label('KDE Normalized')
-            plt.contour(grid[0],grid[1], density.T,colors='white',linewidths=0.5)
+            ax.contour(grid[0],grid[1], density.T,colors='white',linewidths=0.5)
             ax.set_ylabel('Vp')
             
         elif vels=='Vs':
@@ -314,10 +314,10 @@ class QI:
             density=QI.normalize(density)
             # extremely low density is mapped to 0
             density[density<0.0001]=0
-            plt.pcolormesh(grid[0],grid[1], density.T, cmap=cmap_kde,shading='auto')
-            cbar=plt.colorbar()
+            mesh=ax.pcolormesh(grid[0],grid[1], density.T, cmap=cmap_kde,shading='auto')
+            cbar=fig.colorbar(mesh,ax=ax)
             cbar.set_label('KDE Normalized')
-            plt.contour(grid[0],grid[1], density.T,colors='white',linewidths=0.5)
+            ax.contour(grid[0],grid[1], density.T,colors='white',linewidths=0.5)
             ax.set_ylabel('Vs')
         ax.grid(alpha=1)
         return fig
@@ -631,12 +631,12 @@ class QI:
 
         fig,ax=QI.cst_plot(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phib,phib_p,phi_c,sigma,vsh,Cn, scheme,f)
         fig.set_size_inches(7, 6)
-        plt.scatter(self.phi,self.Vp,c=vcem,edgecolors='grey',s=100,vmin=0, vmax=0.1,alpha=0.7,cmap=cmap_cem)
-        cbar=plt.colorbar()
+        sc=ax.scatter(self.phi,self.Vp,c=vcem,edgecolors='grey',s=100,vmin=0, vmax=0.1,alpha=0.7,cmap=cmap_cem)
+        cbar=fig.colorbar(sc,ax=ax)
         cbar.set_label(r'$\rm V_{CEM}$')
-        plt.xlabel('Porosity')
-        plt.ylim([1500,6500])
-        plt.xlim([-0.007,0.507])
+        ax.set_xlabel('Porosity')
+        ax.set_ylim([1500,6500])
+        ax.set_xlim([-0.007,0.507])
         return fig
 
     # RPT plot 
@@ -687,11 +687,11 @@ class QI:
             IP[:,i]=vp*rho
             PS[:,i]=vp/vs
         # plot
-        fig=plt.figure(figsize=(10,8))
-        plt.plot(IP.T, PS.T, '-ok', mec='k', ms=10, mfc='yellow')
-        plt.plot(IP[:,-1], PS[:,-1], '-ok', mec='k', ms=10, mfc='blue')# Brine line 
+        fig,ax=plt.subplots(figsize=(10,8))
+        ax.plot(IP.T, PS.T, '-ok', mec='k', ms=10, mfc='yellow')
+        ax.plot(IP[:,-1], PS[:,-1], '-ok', mec='k', ms=10, mfc='blue')# Brine line 
 
-        plt.xlabel('Acoustic Impedance'), plt.ylabel('Vp/Vs')
+        ax.set_xlabel('Acoustic Impedance'), ax.set_ylabel('Vp/Vs')
         # for i,val in enumerate(phi):
         #     plt.text(IP[i,-1],PS[i,-1]+.03,'{:.02f}'.format(val), alpha=1,backgroundcolor='0.9')
         # for i,val in enumerate(sw):
-- 
2.43.0


From 1c4561692ecec638295a8350bffa7e921fe1593d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:21 +0000
Subject: [PATCH 5/7] fix: QI.estimate_cem works again instead of writing to a
 read-only table column

---
 rockphypy/QI.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/rockphypy/QI.py b/rockphypy/QI.py
index 70913f5..057ed62 100644
--- a/rockphypy/QI.py
+++ b/rockphypy/QI.py
@@ -550,6 +550,7 @@ class QI:
         _,_,K0=EM.VRH(np.array([vsh,1-vsh]),np.array([Ksh,Kqz]))
         _,_,G0=EM.VRH(np.array([vsh,1-vsh]),np.array([Gsh,Gqz])) # this is only two component sandstone, when sandstone is multimineralogy, vectorization should apply here
         D0=Dsh*vsh+Dqz*(1-vsh)
+        vcem_seeds=np.asarray(vcem_seeds) # a list is allowed too
         # create an empty dataframe 
         df = pd.DataFrame()
         # corresponding porosity is phi_c-vcem_seeds[i]
@@ -558,21 +559,20 @@ class QI:
             VP,VS=QI.cal_v_const(Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phi_c-i,phi_c,vsh,self.phi,scheme)
             df['vcem_vp'+str(i)]=VP
         # decide if Vcem is 0 or not, otherwise, interpolate between two closet velocities
-        df['vcem']=np.nan
+        vcem=np.full(len(self.Vp),np.nan)
         for i, val in enumerate(self.Vp):
-            array= np.array(df.iloc[i, :-1])
+            array= np.array(df.iloc[i, :])
             if val <= array[0]:
-                df.vcem.values[i]=0
-                #df.iloc[i]['vcem']=0
+                vcem[i]=0
             elif val >=array[-1]:
-                df.vcem.values[i]=0.1
-                #df.iloc[i]['vcem']=0.1
+                vcem[i]=0.1
             else:
                 big =  array[array<val].max()# the largest element of myArr less than myNumber
                 small = array[array>val].min()# the smallest element of myArr greater than myNumber
-                #df.vcem.values[i]
-                df.vcem.values[i]=(val-small)/(big-small)*(vcem_seeds[array==big]-vcem_seeds[array==small])+vcem_seeds[array==small]
-        return df.vcem.values
+                seed_big=vcem_seeds[array==big][0]
+                seed_small=vcem_seeds[array==small][0]
+                vcem[i]=(val-small)/(big-small)*(seed_big-seed_small)+seed_small
+        return vcem
     def cement_diag_plot(self,vcem,Dqz,Kqz,Gqz,Dsh,Ksh,Gsh,Dc,Kc,Gc,Db,Kb,phib,phib_p,phi_c,sigma,vsh,Cn, scheme,f):
         """_summary_
 
-- 
2.43.0


From a891a55c6964a6db6b430d524bc815f347ab58af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:21 +0000
Subject: [PATCH 6/7] fix: the Emp and Perm names are available after an
 interrupted first import

---
 rockphypy/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rockphypy/__init__.py b/rockphypy/__init__.py
index 04aa2c6..1581ae2 100644
--- a/rockphypy/__init__.py
+++ b/rockphypy/__init__.py
@@ -12,6 +12,7 @@ from rockphypy.EM import EM
 from rockphypy.Emp import Empirical
 from rockphypy.QI import QI
 from rockphypy.utils import utils
+from rockphypy import Emp, Perm # bound explicitly, also when an earlier import attempt failed half-way
 
 __version__ = "0.0.2"
 __author__ = "jiaxinyu"
-- 
2.43.0


From 397f3ecaecbca2db667e017355791e44a3fd209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:31 +0000
Subject: [PATCH 7/7] fix: report a failed DEM integration instead of returning
 uninitialised memory

---
 rockphypy/EM.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rockphypy/EM.py b/rockphypy/EM.py
index e49ee76..6b16988 100644
--- a/rockphypy/EM.py
+++ b/rockphypy/EM.py
@@ -815,7 +815,10 @@ class EM:
         tStop = phi
         tInc = 0.01
         t = np.arange(0, tStop+tInc, tInc)
-        psoln = odeint(EM.DEM, y0, t, args=(params,))
+        psoln, info = odeint(EM.DEM, y0, t, args=(params,), full_output=True)
+        # a failed integration leaves the rest of the solution uninitialised
+        if info['message'] != 'Integration successful.':
+            raise RuntimeError('DEM integration failed: {}'.format(info['message']))
         K_dry_dem=psoln[:,0]
         G_dry_dem=psoln[:,1]
         return K_dry_dem, G_dry_dem,t
-- 
2.43.0

