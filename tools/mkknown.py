"""Regenerates /verif/known_findings.txt: genuine defects repaired in /repo, and those that are not."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MAP = {  # leading words of the commit message -> property
 'wave-vector shells of fluctuating': 'C08', 'the null vector': 'C08', 'g(r) in non-periodic cells is wrong': 'C05',
 'g(r) computed with linked': 'C06', 'fast g(r) up to rmax': 'C05', 'cached frames': 'C22', 'output files cannot': 'C21',
 'the filter option': 'C22', 'api.fkt() and api.fskt()': 'C22', 'api.chi4qs()': 'C22', 'collective overlap misses': 'C02',
 'partial S(k)': 'C07', 'F(k,t) is wrong': 'C10', 'acf.py': 'C26', 'linear fit fails': 'C25', 'linear_grid': 'C26', 'logx_grid': 'C26', 'bond angles are wrong when': 'C12',
 'straight angles': 'C12', 'integer bin width of the bond': 'C12', 'bond angle distribution overwrites': 'C12', 'bond angles write': 'C23',
 'non-Gaussian': 'C01', 'default time grid of the self overlap': 'C03', 'velocity autocorrelation ignores': 'C04', 'default time grid of the velocity': 'C03',
 'norigins does not': 'C04', 'files with a single': 'C20', 'correlations of trajectories without': 'C21', 'api.msd()': 'C22',
 'the center of mass is not': 'C17', 'fixing the center': 'C19', 'filters modify': 'C14', 'one filter too': 'C14', 'Fourier space correlations do not': 'C18',
 'computing a correlation function again': 'C18', 'g(r) in non-periodic cells fails': 'C05', 'fast g(r) is wrong when': 'C16', 'g(r) between overlapping': 'C05',
 'g(r) on a user grid': 'C05', 'the last bin': 'C05', 'wrong volume of the shells': 'C05', 'integer bin width of g(r)': 'C05',
 'linked cells without': 'C06', 'linked cells yield': 'C06', 'linked cells cannot': 'C06', 'linked cells ignore': 'C06', 'linked cells use': 'C06', 'neighbors_list_distinct': 'C24',
 'g(r) kernels write': 'C23', 'input k-grids': 'C19', 'optimized structure factor': 'C07', 'kvectors with large': 'C08', 'changes of the cell': 'C07',
 'spectral density of a sliced': 'C11', 'api.sk()': 'C22', 'api.ik()': 'C22', 'spectral density uses grid': 'C11', 'four-point': 'C28',
 'optimized chi4': 'C02', 'filtering a weighted': 'C21', 'chi4 writes the moments': 'C21', 'chi4 drops': 'C02', 'gcf() drops': 'C26',
 'F_s(k,t) and F(k,t) with fixed': 'C17', 'fluctuations of an integer': 'C15', 'susceptibility drops': 'C27', 'stress autocorrelation': 'C29', 'g(r) of systems without': 'C05', 'chi4 cannot be computed': 'C02', 'linked cells miss': 'C06', 'g(r) loses': 'C18', 'correlations read': 'C18', 'output files of': 'C21',
 'unfolded positions cannot': 'C31', 'two-body correlations miss': 'C31', 'the selection of wave-vectors': 'C08',
 'computing again after an interruption': 'C33', 'an interrupted setup': 'C33',
 'refused weights': 'C34', 'refused conditions': 'C34',
}
KNOWN = [
]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).strip().split('\n')
out = ['# fixed: property=<id> <commit in /repo> <what failed>      (suppresses nothing)',
       '# known: property=<id> mech=<mechanism reported by the check> <what fails>']
for line in log:
    h, s = line.split(' ', 1)
    if not s.startswith('fix: '):
        continue
    s = s[5:]
    hit = [v for k, v in MAP.items() if s.startswith(k)]
    assert len(hit) == 1, (line, hit)
    out.append('fixed: property=%s %s %s' % (hit[0], h, s))
out += KNOWN
open(os.path.join(HERE, 'known_findings.txt'), 'w').write('\n'.join(out) + '\n')
print(len(out) - 2, 'findings')
