from ob import Spec

S = Spec('C03', '''
from datetime import date, datetime, timedelta
from fixedIncome.src.scheduling_tools.scheduler import Scheduler
from fixedIncome.src.scheduling_tools.holidays import (Holiday, US_FEDERAL_HOLIDAYS, generate_all_holidays, generate_holiday_dates,
                                                       get_next_weekday, us_federal_holiday_adjustment)
from fixedIncome.src.scheduling_tools.schedule_enumerations import Months, Weekdays
''', '''
def observed(h, y):
    m = h.Month.value if isinstance(h.Month, Months) else h.Month
    return h.Adjustment_Function(date(y, m, h.Day))

def fed(d):
    if d.weekday() == 5:
        return d - timedelta(1)
    if d.weekday() == 6:
        return d + timedelta(1)
    return d

def on_or_after(d, w):
    return d + timedelta((w - d.weekday()) % 7)
''')
S.eq('business day predicate', 'd: date, cal: dict:str:obj:Holiday', 'Scheduler.is_business_day(d, cal)',
     'd.weekday() < 5 and not any(d == observed(h, y) for h in cal.values() for y in (d.year - 1, d.year, d.year + 1))',
     at='Scheduler.is_business_day', wrong='d.weekday() < 5 and not any(d == observed(h, y) for h in cal.values() for y in (d.year - 1, d.year))')
S.eq('federal observation of a holiday', 'd: date', 'us_federal_holiday_adjustment(d)', 'fed(d)', at='us_federal_holiday_adjustment', wrong='d')
for k, w in enumerate(('MONDAY', 'TUESDAY', 'WEDNESDAY', 'THURSDAY', 'FRIDAY', 'SATURDAY', 'SUNDAY')):
    S.eq(f'first {w.lower()} on or after a day', 'd: date', f'get_next_weekday(d, Weekdays.{w})', f'on_or_after(d, {k})', at='get_next_weekday')
    S.eq(f'first {w.lower()} on or after a day (scheduler)', 'd: date', f'Scheduler.get_next_weekday(d, Weekdays.{w})', f'on_or_after(d, {k})', at='Scheduler.get_next_weekday')
for name, ref in [('NewYears', 'fed(date(y, 1, 1))'), ('Presidents', 'on_or_after(date(y, 2, 15), 0)'), ('Juneteenth', 'fed(date(y, 6, 19))'),
                  ('Independence', 'fed(date(y, 7, 4))'), ('Labor', 'on_or_after(date(y, 9, 1), 0)'), ('Columbus', 'on_or_after(date(y, 10, 8), 0)'),
                  ('Veterans', 'fed(date(y, 11, 11))'), ('Thanksgiving', 'on_or_after(date(y, 11, 22), 3)'), ('Christmas', 'fed(date(y, 12, 25))')]:
    S.eq(f'{name} of a year', 'y: int', f"[x for x in generate_holiday_dates('{name}', y, y, US_FEDERAL_HOLIDAYS)]", f'[{ref}]',
         at='generate_holiday_dates')
S.eq('one holiday over a range of years', 'n: str, a: int, b: int, cal: dict:str:obj:Holiday', 'generate_holiday_dates(n, a, b, cal)',
     '{observed(cal[n], y) for y in range(a, b + 1)}', pre=['n in cal'], at='generate_holiday_dates')
S.eq('an unknown holiday is rejected', 'n: str, a: int, b: int, cal: dict:str:obj:Holiday', 'generate_holiday_dates(n, a, b, cal)',
     'raise KeyError', pre=['n not in cal'], at='generate_holiday_dates')
S.eq('all holidays over a range of years', 'd: date, a: int, b: int, cal: dict:str:obj:Holiday', 'd in generate_all_holidays(a, b, cal)',
     'any(d == observed(h, y) for h in cal.values() for y in range(a, b + 1))', at='generate_all_holidays',
     wrong='any(d == observed(h, y) for h in cal.values() for y in range(a, b))')
