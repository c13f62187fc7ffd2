#!/usr/bin/env python3
# writes the "fixed" records of known_findings.jsonl (properties and what failed; the commit is looked up by its subject prefix)
import subprocess,sys
T='''9cdcca7|C19|band-limited resampling of signals with an odd number of samples used the wrong frequency order (also C01, C02)
e6b2f37|C04|fnft_nsev_max_K was too small for the 4SPLIT discretizations (also C03)
035f316|C17|eigenvalue root finder returned NaNs for a vanishing leading coefficient (also C03)
1ec9a02|C23|random shifts in eiscor: the same call gave different results
b0c20e7|C23|fnft_nsev modified the default options, Richardson extrapolation crashed without optional outputs (also C06, C20)
132d061|C04|fnft_nsev SUBSAMPLE_AND_REFINE failed instead of returning as many bound states as fit
67cc03a|C18|derivative of the scattering matrix was NaN at a singular exponent (also C03)
36a9d21|C20|akns_scatter_bound_states used uninitialized memory (also C05)
514fa42|C03|Newton refinement ignored niter
54aeeb6|C20|fnft_nsev leaked memory on errors and with normalization (also C22)
5748dc8|C01|fnft_nsev with M==1 returned NaN
0188f8d|C05|norming constant matching accepted points where the two estimates differ in phase
8d113be|C23|fnft_kdvv modified the default options, Richardson extrapolation crashed without optional outputs (also C06, C12)
b8032e8|C13|fnft_kdvv grid search used the wrong grid spacing
db5f002|C13|fnft_kdvv wrote beyond a short bound state array
c5c1493|C12|fnft_kdvv with M==1 returned NaN
70d357c|C22|fnft_kdvv leaked memory when an allocation failed
05759a6|C15|fnft_manakovv computed the bound states with the wrong window and did not reset the number
602f604|C23|fnft_manakovv modified the default options, Richardson extrapolation crashed without optional outputs (also C06)
2fa87c8|C15|fnft_manakovv accepted bound states with slow discretizations and returned garbage (also C21)
ad5a6a8|C14|fnft_manakovv with M==1 returned NaN
b16d33d|C22|fnft_manakovv leaked memory when an allocation failed
9c2cd07|C13|fnft_kdvv grid search with normalization used integer division of the scaling exponents (also C24)
267f3c1|C23|fnft_nsep modified the options (also C09)
0db97de|C08|fnft_nsep GRIDSEARCH and MIXED crashed without main or auxiliary spectrum (also C24, C20)
0eb2864|C09|fnft_nsep NEWTON did not shift the guesses of quasi-periodic signals (also C07)
e3d15e4|C22|fnft_nsep leaked memory when an allocation failed
b887233|C07|fnft_nsep refinement divided by a vanishing derivative (also C08)
e1d7e88|C07|fnft_nsep divided by zero for Dsub below 2 or above D (also C21)
2f8a023|C07|fnft_nsep GRIDSEARCH and MIXED without filtering searched an undefined arc (also C09)
c24f3bf|C22|akns_discretization_preprocess_signal leaked memory
e16f86b|C22|manakov_discretization_preprocess_signal leaked memory and ignored errors (also C21)
a4f5b55|C14|manakov_scatter_matrix divided by zero at a singular exponent (also C18)
c547c63|C03|fnft_nsev and fnft_manakovv divided by zero for Dsub out of range (also C15, C21)
bde6222|C06|manakov_discretization_method_order lacked BO and CF4_2
d6326ea|C06|Richardson extrapolation of two samples divided by zero
ade39b3|C17|eigenvalue root finder failed for roots at or near zero (also C08)
b6a5c96|C07|fnft_nsep GRIDSEARCH searched the wrong arc and returned duplicates (also C09)
4fc716b|C07|fnft_nsep refinement moved converged main spectrum points away
7db16e4|C17|eigenvalue root finder lost the small root of quadratics (also C08)
5cea631|C20|eiscor accessed arrays out of bounds (also C23, C17)
3a1b7a8|C11|fnft_nsev_inverse returned wrong multi-solitons for windows with negative times only
7e75923|C11|fnft_nsev_inverse accepted duplicate bound states
137d911|C11|fnft_nsev_inverse divided by zero at a singular exponent
6dd8a10|C22|fnft_nsev_inverse leaked memory (also C20)
9937a5a|C10|nse_finvscatter used a truncated atanh (also C18)
085d842|C13|fnft_kdvv missed bound states below the first grid spacing
fde1b12|C15|fnft_manakovv_max_K was too small for the 4SPLIT discretizations
acb1866|C16|poly_evalderiv returned NaN for degree zero
d451a39|C17|poly_specfact used single precision factors (also C10)
cdb3ce0|C22|z_poly_roots_modified aborted the program when memory ran out
982c02f|C22|kiss_fft crashed in the generic butterfly when memory ran out
52cbf11|C22|Richardson extrapolation freed memory twice when an allocation failed (also C20)
d09127f|C21|misc_resample rejected two samples (also C19)
3c57aca|C21|NaN in T or XI was accepted
ce557de|C21|fnft_nsev_inverse wrote its output before it rejected bad bound states
5862316|C21|invalid option values were detected only after outputs had been written
1a2f883|C21|fnft_nsev_inverse_XI overwrote XI although it failed
ff752e1|C21|fnft_version crashed without suffix array
HEAD|C23|documented default options of fnft_nsep and fnft_kdvv did not match the code'''
log={l.split()[0]:l for l in subprocess.run(['git','-C','/repo','log','--oneline'],capture_output=True,text=True).stdout.splitlines()}
out=[]
for l in T.splitlines():
    h,p,w=l.split('|')
    if h=='HEAD': h=[k for k,v in log.items() if 'documented default options of nsep' in v][0]
    assert any(k.startswith(h) or h.startswith(k) for k in log),h
    k=[k for k in log if k.startswith(h) or h.startswith(k)][0]; subj=log[k].split(' ',1)[1].replace('fix: ','',1); also=w[w.rindex('(also'):] if '(also' in w else ''
    out.append(f'fixed: property={p} {k} {subj} {also}'.strip())
open(sys.argv[1],'w').write('\n'.join(out)+'\n')
