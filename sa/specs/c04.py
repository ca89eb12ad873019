from ob import Spec

S = Spec('C04', '''
from datetime import date, datetime, timedelta
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.holidays import Holiday
from fixedIncome.src.scheduling_tools.schedule_enumerations import SettlementConvention
''', '''
def following(d, cal):
    while not Scheduler.is_business_day(d, cal):
        d = d + timedelta(1)
    return d

def preceding(d, cal):
    while not Scheduler.is_business_day(d, cal):
        d = d - timedelta(1)
    return d

def forward(d, n, cal):
    d = following(d, cal)
    for _ in range(n):
        d = following(d + timedelta(1), cal)
    return d

def backward(d, n, cal):
    d = following(d, cal)
    for _ in range(n):
        d = preceding(d - timedelta(1), cal)
    return d
''')
OP = ('Scheduler.is_business_day',)
A = 'd: date, cal: dict:str:obj:Holiday'
S.eq('zero business days moves to the next business day', A, 'Scheduler.add_business_days(d, 0, cal)', 'following(d, cal)', opaque=OP, at='Scheduler.add_business_days',
     wrong='preceding(d, cal)')
S.eq('moving forward by business days', 'd: date, n: int, cal: dict:str:obj:Holiday', 'Scheduler.add_business_days(d, n, cal)', 'forward(d, n, cal)',
     pre=['n >= 0'], opaque=OP, at='Scheduler.add_business_days', wrong='forward(d, n + 1, cal)')
S.eq('moving back by business days', 'd: date, n: int, cal: dict:str:obj:Holiday', 'Scheduler.add_business_days(d, n, cal)', 'backward(d, -n, cal)',
     pre=['n < 0'], opaque=OP, at='Scheduler.add_business_days')
for n in (1, 2, 3):
    S.eq(f'moving forward by {n}', A, f'Scheduler.add_business_days(d, {n}, cal)', f'forward(d, {n}, cal)', opaque=OP, at='Scheduler.add_business_days')
    S.eq(f'moving back by {n}', A, f'Scheduler.add_business_days(d, -{n}, cal)', f'backward(d, {n}, cal)', opaque=OP, at='Scheduler.add_business_days')
S.eq('next business day of a business day', A, 'Scheduler.add_single_business_day(d, cal)', 'following(d + timedelta(1), cal)',
     pre=['Scheduler.is_business_day(d, cal)'], opaque=OP, at='Scheduler.add_single_business_day')
S.eq('next business day of a non-business day is rejected', A, 'Scheduler.add_single_business_day(d, cal)', 'raise Exception',
     pre=['not Scheduler.is_business_day(d, cal)'], opaque=OP, at='Scheduler.add_single_business_day')
S.eq('previous business day', A, 'Scheduler.subtract_single_business_day(d, cal)', 'preceding(following(d, cal) - timedelta(1), cal)', opaque=OP,
     at='Scheduler.subtract_single_business_day')
S.eq('following adjustment', A, 'Scheduler.following_date_adjustment(d, cal)', 'following(d, cal)', opaque=OP, at='Scheduler.following_date_adjustment')
S.eq('modified following adjustment', A, 'Scheduler.modified_following_date_adjustment(d, cal)', '''
f = following(d, cal)
if f.month == d.month:
    return f
return preceding(f - timedelta(1), cal)
''', opaque=OP, at='Scheduler.modified_following_date_adjustment', wrong='following(d, cal)')
for name, ref in [('T_MINUS_TWO_BUSINESS', 'backward(d, 2, cal)'), ('T_MINUS_ONE_BUSINESS', 'backward(d, 1, cal)'),
                  ('T_MINUS_ZERO_BUSINESS', 'd if Scheduler.is_business_day(d, cal) else backward(d, 1, cal)'),
                  ('T_PLUS_ZERO_BUSINESS', 'following(d, cal)'), ('T_PLUS_ONE_BUSINESS', 'forward(d, 1, cal)'),
                  ('T_PLUS_TWO_BUSINESS', 'forward(d, 2, cal)'), ('T_PLUS_THREE_BUSINESS', 'forward(d, 3, cal)')]:
    S.eq(f'settlement {name}', A, f'Scheduler.calculate_settlement_date(d, SettlementConvention.{name}, cal)', ref, opaque=OP, at='Scheduler.calculate_settlement_date')
S.eq('unknown settlement convention is rejected', A, "Scheduler.calculate_settlement_date(d, 'T+1', cal)", 'raise Exception', opaque=OP, at='Scheduler.calculate_settlement_date')
