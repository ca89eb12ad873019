from ob import Spec

S = Spec('C12', '''
import calendar
from datetime import date, datetime, timedelta
from dateutil.relativedelta import relativedelta
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import PaymentFrequency, PaymentTime, DayCountConvention
from fixedIncome.src.assets.base_cashflow import Cashflow
from fixedIncome.src.curves.base_curve import DiscountCurve
from fixedIncome.src.assets.credit.loan import Loan, LoanPayment
''', '''
class Stub(DiscountCurve):
    def __init__(self, ref, f):
        self.reference_date = ref
        self.f = f
    def __call__(self, date_obj, adjustment=None):
        return self.f(date_obj)

def loan(P, r, o, term, freq=PaymentFrequency.MONTHLY, when=PaymentTime.START_OF_MONTH, dcc=DayCountConvention.THIRTY_OVER_THREESIXTY):
    return Loan(principal=P, interest_rate=r, origination_date=o, term_length=term, day_count_convention=dcc, payment_frequency=freq, payment_time=when)

def show(ps):
    return [(p.payment_date, p.payment, p.principal_payment, p.interest_payment) for p in ps]

def dates(ps):
    return [p.payment_date for p in ps]

def first_of_next(d):
    if d.month == 12:
        return date(d.year + 1, 1, 1)
    return date(d.year, d.month + 1, 1)

def last_of(d):
    return date(d.year, d.month, calendar.monthrange(d.year, d.month)[1])

def from_first(o, term, m):
    s = first_of_next(o)
    out = []
    k = 0
    while s + k * relativedelta(months=m) <= s + term:
        out.append(s + k * relativedelta(months=m))
        k += 1
    return out

def from_last(o, term, m):
    s = last_of(o)
    out = []
    day = s
    while day <= last_of(s + term):
        out.append(day)
        day = last_of(s + len(out) * relativedelta(months=m))
    return out

def amortise(P, r, ds, pay, extra, dcc):
    # interest accrues on what is left; a payment clears at most what is left, and never is more than what it clears plus the interest
    out = []
    left = P
    for k in range(len(ds) - 1):
        interest = DayCountCalculator.compute_accrual_length(ds[k], ds[k + 1], dcc=dcc) * r * left
        towards = pay - interest + extra(k)
        if left <= towards:
            towards = left
            pay = left + interest
        out.append((ds[k + 1], towards + interest, towards, interest))
        left = left - towards
    return out
''')
OP = ('DayCountCalculator.compute_accrual_length',)
A = 'P: num, r: num, o: date, term: rd, pay: num'
for freq, m, n in (('MONTHLY', 1, 12), ('QUARTERLY', 3, 4), ('SEMI_ANNUAL', 6, 2), ('ANNUAL', 12, 1)):
    F = f'PaymentFrequency.{freq}'
    for dcc in ('THIRTY_OVER_THREESIXTY', 'ACTUAL_OVER_360'):
        if dcc[0] == 'T' or freq == 'MONTHLY':
            S.eq(f'fixed payment {freq} {dcc}', 'P: num, r: num, o: date, term: rd', f'loan(P, r, o, term, {F}, dcc=DayCountConvention.{dcc}).calculate_fixed_payment_amount()', f'''
t = DayCountCalculator.compute_accrual_length(o, o + term, dcc=DayCountConvention.{dcc})
if r == 0:
    return P / ({n} * t)
q = (1 + r / {n}) ** ({n} * t)
return P * (r / {n}) * q / (q - 1)
''', pre=['r >= 0'], opaque=OP, at='Loan.calculate_fixed_payment_amount')
    S.eq(f'payment dates at month start {freq}', A, f'dates(loan(P, r, o, term, {F}).generate_payment_schedule(pay))', f'from_first(o, term, {m})[1:]', opaque=OP,
         at='Loan.generate_payment_schedule', wrong=f'from_first(o, term, {m})')
    S.eq(f'payment dates at month end {freq}', A, f'dates(loan(P, r, o, term, {F}, PaymentTime.END_OF_MONTH).generate_payment_schedule(pay))', f'from_last(o, term, {m})[1:]', opaque=OP,
         at='Loan.generate_payment_schedule')
for freq, m, dcc in (('MONTHLY', 1, 'THIRTY_OVER_THREESIXTY'), ('MONTHLY', 1, 'ACTUAL_OVER_360'), ('ANNUAL', 12, 'THIRTY_OVER_THREESIXTY')):
    S.eq(f'payments at month start {freq} {dcc}', A, f'show(loan(P, r, o, term, PaymentFrequency.{freq}, dcc=DayCountConvention.{dcc}).generate_payment_schedule(pay))',
         f'amortise(P, r, from_first(o, term, {m}), pay, lambda k: 0, DayCountConvention.{dcc})', opaque=OP, at='Loan.generate_payment_schedule')

EXTRA = [('no extra payment', '', 'None', '0'), ('fixed extra payment', 'x: num', 'x', 'x'), ('whole-number extra payment', 'x: int', 'x', 'x')]
for name, args, given, at in EXTRA:
    S.eq(f'payments with {name}', A + (', ' + args if args else ''), f'show(loan(P, r, o, term).generate_payment_schedule(pay, {given}))',
         f'amortise(P, r, from_first(o, term, 1), pay, lambda k: {at}, DayCountConvention.THIRTY_OVER_THREESIXTY)', opaque=OP, at='Loan.generate_payment_schedule')

# the payments of short loans, spelled out
def short(name, args, years, extra, ref, pre=()):
    S.eq(name, 'o: date, ' + args, f"show(loan(1000, 0.05, o, relativedelta(years={years}), PaymentFrequency.ANNUAL).generate_payment_schedule(pay{extra}))", ref, pre=['pay > 0', *pre], at='Loan.generate_payment_schedule')

HEAD = "days = from_first(o, relativedelta(years=2), 12)\n"
short('one annual payment', 'pay: num', 1, '', HEAD + "return [(days[1], min(pay, 1050), min(pay, 1050) - 50, 50)]")
short('one annual payment and an extra payment', 'pay: num, x: num', 1, ', x', HEAD + "return [(days[1], min(pay + x, 1050), min(pay + x, 1050) - 50, 50)]")
two = HEAD + """out = []
left = 1000
for k, extra in ((1, {0}), (2, {1})):
    paid = min(pay + extra, left * 1.05)
    out.append((days[k], paid, paid - left * 0.05, left * 0.05))
    left = left * 1.05 - paid
return out
"""
for name, args, given, at, pre in (('', '', '', (0, 0), []), (' and the same extra payment', ', x: num', ', x', ('x', 'x'), ['x >= 0']), (' and no listed extra payment', '', ', []', (0, 0), []), (' and one extra payment', ', x: num', ', [x]', ('x', 0), ['x >= 0']),
                              (' and two extra payments', ', x: num, y: num', ', (x, y)', ('x', 'y'), ['x >= 0', 'y >= 0']),
                              (' and more extra payments than payments', ', x: num, y: num, z: num', ', [x, y, z, 7, 8]', ('x', 'y'), ['x >= 0', 'y >= 0'])):
    short('two annual payments' + name, 'pay: num' + args, 2, given, two.format(*at), pre)

S.eq('interest of a period', 'P: num, r: num, o: date, a: date, b: date', 'loan(P, r, o, relativedelta(years=1))._calculate_interest_payment(a, b)',
     'DayCountCalculator.compute_accrual_length(a, b, dcc=DayCountConvention.THIRTY_OVER_THREESIXTY) * r * P', opaque=OP, at='Loan._calculate_interest_payment')
S.eq('interest of a period at given rate and principal', 'P: num, r: num, o: date, a: date, b: date, q: num, L: num', 'loan(P, r, o, relativedelta(years=1))._calculate_interest_payment(a, b, q, L)',
     'DayCountCalculator.compute_accrual_length(a, b, dcc=DayCountConvention.THIRTY_OVER_THREESIXTY) * q * L', opaque=OP, at='Loan._calculate_interest_payment')
S.eq('principal', 'P: num, r: num, o: date', 'loan(P, r, o, relativedelta(years=1)).principal', 'P', at='Loan.principal')
S.eq('end date', 'P: num, r: num, o: date, term: rd', 'loan(P, r, o, term)._end_date', 'o + term', at='Loan.__init__')
S.eq('value of a loan', 'ref: date, f: fn:num, P: num, r: num, o: date, term: rd', 'loan(P, r, o, term).present_value(Stub(ref, f))', """
L = loan(P, r, o, term)
return sum(p.payment * f(p.payment_date) for p in L.generate_payment_schedule(L.calculate_fixed_payment_amount()) if p.payment_date >= ref)
""", pre=['r > 0'], opaque=OP, at='Loan.present_value')
for bad in ('ZERO_COUPON',):
    S.eq(f'payment frequency {bad} is refused', 'P: num, r: num, o: date, pay: num', f"loan(P, r, o, relativedelta(years=1), PaymentFrequency.{bad}).generate_payment_schedule(pay)", "raise ValueError('no schedule')", at='Loan.generate_payment_schedule')
S.eq('unknown payment time is refused', 'P: num, r: num, o: date, pay: num', "loan(P, r, o, relativedelta(years=1), PaymentFrequency.MONTHLY, None).generate_payment_schedule(pay)", "raise ValueError('no schedule')", at='Loan.generate_payment_schedule')
