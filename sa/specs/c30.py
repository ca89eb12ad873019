from ob import Spec
import resolve
S = Spec('C30', '', '')
for fn in resolve.ALL:
    S.rule(fn)
