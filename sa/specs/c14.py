from ob import Spec
from c13 import IMPORTS, HELP, OP

S = Spec('C14', IMPORTS, HELP + '''
def worth(ps, ref, f):
    return sum(f(p.payment_date) * p.payment for p in ps if p.payment is not None and p.payment_date >= ref)
''')
A = 'rate: num, notional: num, bought: date, cal: dict:str:obj:Holiday'
G = 'fixed: seq:obj:SwapAccrual, floating: seq:obj:SwapAccrual, ' + A + ', r: date, d: fn:num'
for cls, real in (('GivenTerm', 'TermInterestRateSwap'), ('GivenOis', 'OvernightIndexSwap')):
    for way, sign in (('RECEIVER_FIXED', 1), ('PAYER_FIXED', -1)):
        S.eq(f'{real} value {way}', A + ', r: date, d: fn:num, fx: seq:obj:Payment, fl: seq:obj:Payment', f'''
x = given({cls}, [], [], rate, notional, bought, cal, InterestRateSwapDirection.{way})
x[CashflowKeys.FIXED_LEG] = Cashflow(fx)
x[CashflowKeys.FLOATING_LEG] = Cashflow(fl)
return x.present_value(Stub(r, d))
''', f'{sign} * (worth(fx, r, d) - worth(fl, r, d))', opaque=OP, at=f'{real}.present_value', wrong=f'{-sign} * (worth(fx, r, d) - worth(fl, r, d))')
    S.eq(f'{real} value of its own legs', G + ', f: fn:num', f'''
x = given({cls}, fixed, floating, rate, notional, bought, cal)
a = x.generate_fixed_leg_cashflow()
b = x.generate_floating_leg_cashflow(f)
return x.present_value(Stub(r, d)) - (a.present_value(Stub(r, d)) - b.present_value(Stub(r, d)))
''', '0', opaque=OP, at=f'{real}.present_value')
    for set_ in ('fixed', 'floating'):
        gen = 'x.generate_fixed_leg_cashflow()' if set_ == 'fixed' else 'x.generate_floating_leg_cashflow(f)'
        S.eq(f'{real} value with only the {set_} leg is refused', G + ', f: fn:num', f'x = given({cls}, fixed, floating, rate, notional, bought, cal)\n{gen}\nreturn x.present_value(Stub(r, d))',
             f'x = given({cls}, fixed, floating, rate, notional, bought, cal)\n{gen}\nraise ValueError', opaque=OP, at=f'{real}.present_value')
    S.eq(f'{real} an unknown direction is refused', A + ', r: date, d: fn:num, fx: seq:obj:Payment, fl: seq:obj:Payment', f'''
x = given({cls}, [], [], rate, notional, bought, cal, None)
x[CashflowKeys.FIXED_LEG] = Cashflow(fx)
x[CashflowKeys.FLOATING_LEG] = Cashflow(fl)
return x.present_value(Stub(r, d))
''', 'raise ValueError', opaque=OP, at=f'{real}.present_value')
    S.eq(f'{real} fair rate', G + ', f: fn:num', f'given({cls}, fixed, floating, rate, notional, bought, cal).implied_rate(Stub(r, d), f)', f'''
x = given({cls}, fixed, floating, rate, notional, bought, cal)
annuity = sum(d(settles(a.end_accrual, SettlementConvention.T_PLUS_ONE_BUSINESS, cal)) * a.accrual_factor * notional for a in fixed)
return x.generate_floating_leg_cashflow(f).present_value(Stub(r, d)) / annuity
''', opaque=OP, at=f'{real}.implied_rate')
    S.eq(f'{real} is worth nothing at its fair rate', G + ', f: fn:num', f'''
x = given({cls}, fixed, floating, rate, notional, bought, cal)
fair = x.implied_rate(Stub(r, d), f)
y = given({cls}, fixed, floating, fair, notional, bought, cal)
y.generate_fixed_leg_cashflow()
y.generate_floating_leg_cashflow(f)
return y.present_value(Stub(r, d))
''', '''
return 0
''', pre=['all(settles(a.end_accrual, SettlementConvention.T_PLUS_ONE_BUSINESS, cal) >= r for a in fixed)'], opaque=OP, at=f'{real}.implied_rate')
    for keep in ('False', 'True'):
        S.eq(f'{real} asking for the fair rate, set_cashflow={keep}', G + ', f: fn:num', f'x = given({cls}, fixed, floating, rate, notional, bought, cal)\nx.implied_rate(Stub(r, d), f, {keep})\nreturn (x.fixed_leg, x.floating_leg is None, x.fixed_rate)',
             f'x = given({cls}, fixed, floating, rate, notional, bought, cal)\nx.implied_rate(Stub(r, d), f)\nreturn (None, {keep == "False"}, rate)', opaque=OP, at=f'{real}.implied_rate')
