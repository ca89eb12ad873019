from ob import Spec

S = Spec('C05', '''
from datetime import date, datetime, timedelta
from dateutil.relativedelta import relativedelta
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.holidays import Holiday
''', '''
def following(d, cal):
    while not Scheduler.is_business_day(d, cal):
        d = d + timedelta(1)
    return d

def up(s, e, inc, cap=1000):
    out = []
    k = 0
    while s + k * inc <= e and k < cap:
        out.append(s + k * inc)
        k += 1
    return out

def down(s, e, inc, cap=1000):
    out = []
    k = 0
    while s + k * inc >= e and k < cap:
        out.append(s + k * inc)
        k += 1
    return out
''')
OP = ('Scheduler.is_business_day',)
for m in (1, 3, 6, 12):
    S.eq(f'dates every {m} months forward', 's: date, e: date', f'Scheduler.generate_dates_by_increments(s, e, relativedelta(months={m}))',
         f'up(s, e, relativedelta(months={m}))', at='Scheduler.generate_dates_by_increments')
    S.eq(f'dates every {m} months backward', 's: date, e: date', f'Scheduler.generate_dates_by_increments(s, e, relativedelta(months=-{m}))',
         f'down(s, e, relativedelta(months=-{m}))', at='Scheduler.generate_dates_by_increments')
S.eq('dates every week', 's: date, e: date', 'Scheduler.generate_dates_by_increments(s, e, timedelta(7))', 'up(s, e, timedelta(7))', at='Scheduler.generate_dates_by_increments')
S.eq('dates every week backward', 's: date, e: date', 'Scheduler.generate_dates_by_increments(s, e, timedelta(-7))', 'down(s, e, timedelta(-7))', at='Scheduler.generate_dates_by_increments')
S.eq('business days in an interval', 's: date, e: date, cal: dict:str:obj:Holiday', 'Scheduler.generate_business_days(s, e, cal)', '''
out = []
d = following(s, cal)
while d <= e:
    out.append(d)
    d = following(d + timedelta(1), cal)
return out
''', opaque=OP, at='Scheduler.generate_business_days')
S.eq('a cap bounds the number of dates', 's: date, e: date, n: int', 'len(Scheduler.generate_dates_by_increments(s, e, timedelta(1), max_dates=n)) <= n', 'True', pre=['n >= 1', 's <= e'],
     at='Scheduler.generate_dates_by_increments')
S.eq('a cap does not drop dates', 's: date, e: date', 'Scheduler.generate_dates_by_increments(s, e, timedelta(1), max_dates=5)', '[s + timedelta(k) for k in range(min(5, (e - s).days + 1))]', pre=['s <= e'],
     at='Scheduler.generate_dates_by_increments')
S.eq('an increment of another type is rejected', 's: date, e: date', "Scheduler.generate_dates_by_increments(s, e, 'monthly')", 'raise Exception', at='Scheduler.generate_dates_by_increments')
for name, inc in [('a month less forty days', 'relativedelta(months=1, days=-40)'), ('a month and a week', 'relativedelta(months=1, days=7)'), ('two weeks', 'relativedelta(weeks=2)'), ('a day', 'relativedelta(days=1)'), ('two years', 'relativedelta(years=2)')]:
    d = 'down' if '-' in inc else 'up'
    S.eq(f'dates every {name}', 's: date, e: date', f'Scheduler.generate_dates_by_increments(s, e, {inc})', f'{d}(s, e, {inc})', at='Scheduler.generate_dates_by_increments')
for name, inc in [('six hours', 'relativedelta(hours=6)'), ('six hours backward', 'relativedelta(hours=-6)'), ('half an hour', 'timedelta(minutes=30)'), ('half an hour backward', 'timedelta(minutes=-30)'), ('ninety minutes backward', 'relativedelta(minutes=-90)')]:
    d = 'down' if '-' in inc else 'up'
    S.eq(f'instants every {name}', 's: datetime, e: datetime', f'Scheduler.generate_dates_by_increments(s, e, {inc})', f'{d}(s, e, {inc})', at='Scheduler.generate_dates_by_increments')
for n in (0, 1, 3):
    S.eq(f'a cap of {n} in whole months', 's: date, e: date', f'Scheduler.generate_dates_by_increments(s, e, relativedelta(months=1), max_dates={n})', f'up(s, e, relativedelta(months=1), {n})', at='Scheduler.generate_dates_by_increments')
    S.eq(f'a cap of {n} backward', 's: date, e: date', f'Scheduler.generate_dates_by_increments(s, e, relativedelta(months=-1), max_dates={n})', f'down(s, e, relativedelta(months=-1), {n})', at='Scheduler.generate_dates_by_increments')
    S.eq(f'a cap of {n} in days', 's: date, e: date', f'Scheduler.generate_dates_by_increments(s, e, timedelta(2), max_dates={n})', f'up(s, e, timedelta(2), {n})', at='Scheduler.generate_dates_by_increments')
