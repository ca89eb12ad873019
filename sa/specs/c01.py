from ob import Spec

S = Spec('C01', '''
from datetime import date, datetime, timedelta
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
''', '''
def is_feb_end(d):
    return d.month == 2 and (d + timedelta(1)).month == 3

def thirty(s, e):
    d1 = s.day
    d2 = e.day
    if is_feb_end(s) and is_feb_end(e):
        d2 = 30
    if is_feb_end(s):
        d1 = 30
    if d2 == 31 and d1 >= 30:
        d2 = 30
    if d1 == 31:
        d1 = 30
    return (360 * (e.year - s.year) + 30 * (e.month - s.month) + d2 - d1) / 360

def year_days(y):
    return (date(y, 12, 31) - date(y - 1, 12, 31)).days

def actact(s, e):
    if s.year == e.year:
        return (e - s).days / year_days(s.year)
    return (date(s.year, 12, 31) - s).days / year_days(s.year) + (e.year - s.year - 1) + (e - date(e.year - 1, 12, 31)).days / year_days(e.year)
''')
AT = 'DayCountCalculator.compute_accrual_length'
for name, conv, ref in [
        ('actual/360', 'ACTUAL_OVER_360', '(e - s).days / 360'),
        ('actual/365', 'ACTUAL_OVER_365', '(e - s).days / 365'),
        ('actual/365.25', 'ACTUAL_OVER_365_POINT_25', '(e - s).days / 365.25'),
        ('30/360', 'THIRTY_OVER_THREESIXTY', 'thirty(s, e)'),
        ('actual/actual', 'ACTUAL_OVER_ACTUAL', 'actact(s, e)')]:
    S.eq(name, 's: date, e: date', f'DayCountCalculator.compute_accrual_length(s, e, DayCountConvention.{conv})', ref, pre=['s <= e'], at=AT,
         wrong=f'({ref}) + 1')
    S.eq(name + ' end before start is rejected', 's: date, e: date',
         f'DayCountCalculator.compute_accrual_length(s, e, DayCountConvention.{conv})', 'raise Exception', pre=['e < s'], at=AT)
S.eq('unknown convention is rejected', 's: date, e: date', "DayCountCalculator.compute_accrual_length(s, e, 'thirty')", 'raise Exception', pre=['s <= e'], at=AT)
