import json,subprocess
h={}
for l in subprocess.check_output(['git','-C','/repo','log','--format=%h %s']).decode().splitlines():
    a,b=l.split(' ',1); h[b]=a
def H(s):
    c=[v for k,v in h.items() if s in k]; assert len(c)==1,s
    return c[0]
F=[
('C10','second state index','compiled electron-phonon Lindblad jump term used the wrong second state index (kernel differed from the equations and from the Python version)'),
('C19','consistent when coherences are removed','removing coherences left slot numbers beyond the kernel size, so other coherences were dropped or written out of bounds'),
('C20','get_phi0 and get_phi1','get_phi0/get_phi1 returned wrong or foreign elements for Pauli-type approaches, many-body builders and removed states'),
('C24','charge bookkeeping','many-body builders with a charge offset or gaps crashed or mislabelled charges; get_phi0 failed for RTD'),
('C25','per-thread RTD kernels','compiled RTD wrote outside its per-thread copies after states were removed'),
('C04','symmetry option by value','symmetry=\'spin\' was compared by identity, so an equal string built at run time disabled it; indexing appended to the caller\'s list'),
('C06','tleads_array current','tleads_array (used by RTD) was stale after change/add and spin symmetry was not expanded in update'),
('C18','keep the many-body states','switching between approaches with different index classes lost the many-body states or crashed; a second Fock state removal failed'),
('C14','solution method options','changing mfreeq/solmethod after construction used stale arrays or a wrong method; matrix-free solutions were not used for the currents of compiled approaches'),
('C06','Coulomb matrix elements as an array','Coulomb elements given as an array crashed, and change(coulomb=[[...,0]]) was ignored'),
('C06','do not modify the dictionaries','QuantumDot/LeadsTunneling/PhononBaths modified the dictionaries of the caller in add/change'),
('C06','independent of the input order','with spin symmetry and herm_c, change() of conjugate partners listed in another order than at construction added a second copy of the element'),
('C16','equal-temperature threshold','Python integralX used another threshold for equal temperatures than the compiled one and than integralD'),
('C16','overflow guards','bose(x, sign=-1) returned 0 instead of -1 and diff_fermi(x, sign=-1) nan where only exp(-x) is small / large'),
('C18','input arrays that were replaced','compiled approaches ignored lead, bath, energy and amplitude arrays assigned after the first solve'),
('C18','regenerate the Ozaki','RTD kept the Ozaki expansion of an earlier, larger bandwidth to temperature ratio, so results depended on the history'),
('C18','switching the off-diagonal corrections','compiled RTD crashed (segmentation fault) when off_diag_corrections was switched on after a solve; pyRTD failed when created without them'),
('C18','ignore mfreeq=True','mfreeq=True crashed the compiled RTD (segmentation fault) although validate_mfreeq documents it as ignored'),
('C18','make_kern_copy take effect','make_kern_copy=True after the first solve had no effect, the kernel was overwritten by the solver'),
('C21','energies of the kept states','RTD energy current used the energies of wrong states (or crashed) with removed states or states not ordered by charge'),
('C21','leave removed coherences out of the off','RTD with removed coherences wrote the off-diagonal corrections into wrong or out-of-bounds elements'),
('C21','whenever the temperatures differ','pyRTD crashed, or used a stale Ozaki expansion, for temperatures that differ slightly (within the tolerance of np.isclose)'),
('C22','leave removed coherences out of the 2vN','2vN with removed coherences wrote out of place (compiled: out of bounds, Python: into the last element), so the currents were not conserved'),
('C22','two-electron energies also for asymmetric','the extended energy grid of 2vN did not cover the two-electron energies when the bands are not symmetric around zero, so contributions were dropped'),
('C25','norm_row outside of the kernel','compiled approaches wrote outside of the kernel for a norm_row that is negative or beyond its size, e.g. after states were removed'),
]
KNOWN=[dict(id='K01',property='C22',status='known',case='what="conj"',claim='^conjugated amplitudes, coherence',
 what='get_at_k1 (neumann2.py, c_neumann2.pyx): in the iterations of 2vN the conjugate of an amplitude Phi[1]_cb is expressed by the same Phi[0]_bb\' '
 'instead of its conjugate Phi[0]_b\'b, so with coherences between states and a second or later iteration the currents depend on the phases of the eigenvectors; '
 'the existing tests pin the numbers this produces, so it is recorded, not repaired')]
json.dump({'findings':KNOWN+[{'id':'F%02d'%(i+1),'property':p,'status':'fixed','what':w,'entry':'fixed: property=%s %s %s'%(p,H(s),w)} for i,(p,s,w) in enumerate(F)]},open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'known_findings.json'),'w'),indent=1)
