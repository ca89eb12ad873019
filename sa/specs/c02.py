from ob import Spec

S = Spec('C02', '''
from datetime import date, datetime, timedelta, time
from fixedIncome.src.scheduling_tools.day_count_calculator import DayCountCalculator
from fixedIncome.src.scheduling_tools.schedule_enumerations import DayCountConvention
''', '''
def midnight(d):
    return datetime.combine(d, time(0))

def days360(a, b):
    return (b - a).days / 360

def days365(a, b):
    return (b - a).days / 365

def days36525(a, b):
    return (b - a).days / 365.25
''')
AT = 'DayCountCalculator.compute_accrual_length'
CONV = [('ACTUAL_OVER_360', '360'), ('ACTUAL_OVER_365', '365'), ('ACTUAL_OVER_365_POINT_25', '365.25')]
for conv, basis in CONV:
    S.eq(f'{conv} between two instants', 's: datetime, e: datetime',
         f'DayCountCalculator.compute_accrual_length(s, e, DayCountConvention.{conv})',
         f'(e - s).total_seconds() / 86400 / {basis}', pre=['s <= e'], at=AT, wrong=f'(e - s).total_seconds() / 86400 / {basis} + s.day')
    S.eq(f'{conv} from an instant to a day', 's: datetime, e: date',
         f'DayCountCalculator.compute_accrual_length(s, e, DayCountConvention.{conv})',
         f'(midnight(e) - s).total_seconds() / 86400 / {basis}', pre=['s <= midnight(e)'], at=AT)
    S.eq(f'{conv} from a day to an instant', 's: date, e: datetime',
         f'DayCountCalculator.compute_accrual_length(s, e, DayCountConvention.{conv})',
         f'(e - midnight(s)).total_seconds() / 86400 / {basis}', pre=['midnight(s) <= e'], at=AT)
for conv in ('THIRTY_OVER_THREESIXTY', 'ACTUAL_OVER_ACTUAL'):
    one = f'DayCountCalculator._{"dcc_30_over_360" if conv[0] == "T" else "dcc_act_over_act"}'
    whole = lambda a, b: f'acc({a}, {b})'
    H = f'''
def acc(a, b):
    return DayCountCalculator.{'_dcc_30_over_360' if conv[0] == 'T' else '_dcc_act_over_act'}(start_date=a, end_date=b)
'''
    S.eq(f'{conv} between two instants interpolates the whole-day accruals', 's: datetime, e: datetime',
         f'DayCountCalculator.compute_accrual_length(s, e, DayCountConvention.{conv})',
         f'''
inner = DayCountCalculator.compute_accrual_length(s.date() + timedelta(1), e.date(), DayCountConvention.{conv})
outer = DayCountCalculator.compute_accrual_length(s.date(), e.date() + timedelta(1), DayCountConvention.{conv})
secs = (midnight(s.date() + timedelta(1)) - s).total_seconds() + (e - midnight(e.date())).total_seconds()
return inner + (outer - inner) * secs / (2 * 86400)
''', pre=['s <= e', 's.date() + timedelta(1) <= e.date()'], at=AT)
    S.eq(f'{conv} from an instant to a day interpolates the whole-day accruals', 's: datetime, e: date',
         f'DayCountCalculator.compute_accrual_length(s, e, DayCountConvention.{conv})',
         f'''
inner = DayCountCalculator.compute_accrual_length(s.date() + timedelta(1), e, DayCountConvention.{conv})
outer = DayCountCalculator.compute_accrual_length(s.date(), e, DayCountConvention.{conv})
secs = (midnight(s.date() + timedelta(1)) - s).total_seconds()
return inner + (outer - inner) * secs / 86400
''', pre=['s <= midnight(e)', 's.date() + timedelta(1) <= e'], at=AT)
    S.eq(f'{conv} from a day to an instant interpolates the whole-day accruals', 's: date, e: datetime',
         f'DayCountCalculator.compute_accrual_length(s, e, DayCountConvention.{conv})',
         f'''
inner = DayCountCalculator.compute_accrual_length(s, e.date(), DayCountConvention.{conv})
outer = DayCountCalculator.compute_accrual_length(s, e.date() + timedelta(1), DayCountConvention.{conv})
secs = (e - midnight(e.date())).total_seconds()
return inner + (outer - inner) * secs / 86400
''', pre=['midnight(s) <= e', 's <= e.date()'], at=AT)
S.eq('an instant before the start is rejected', 's: datetime, e: datetime',
     'DayCountCalculator.compute_accrual_length(s, e, DayCountConvention.ACTUAL_OVER_360)', 'raise Exception', pre=['e < s'], at=AT)
S.eq('length of a time span in years', 'd: timedelta', 'DayCountCalculator.time_fraction_in_years(d)', 'd.total_seconds() / (365.25 * 86400)',
     at='DayCountCalculator.time_fraction_in_years')
# whatever is counted between whole days
for name, args, si, so, sm, ei, eo, em, width in (
        ('two instants', 's: datetime, e: datetime', 's.date() + timedelta(1)', 's.date()', 's', 'e.date()', 'e.date() + timedelta(1)', 'e', 2),
        ('an instant and a day', 's: datetime, e: date', 's.date() + timedelta(1)', 's.date()', 's', 'e', 'e', 'midnight(e)', 1),
        ('a day and an instant', 's: date, e: datetime', 's', 's', 'midnight(s)', 'e.date()', 'e.date() + timedelta(1)', 'e', 1)):
    S.eq(f'any count between {name}', 'h: fn:num, ' + args, 'DayCountCalculator.include_datetimes(h)(start_date=s, end_date=e)', f'''
inner, outer = h({si}, {ei}), h({so}, {eo})
secs = (midnight({si}) - {sm}).total_seconds() + ({em} - midnight({ei})).total_seconds()
return inner + (outer - inner) * secs / ({width} * 86400)
''', at='DayCountCalculator.include_datetimes', wrong=f'h({si}, {ei})')
S.eq('any count between two days', 'h: fn:num, s: date, e: date', 'DayCountCalculator.include_datetimes(h)(start_date=s, end_date=e)', 'h(s, e)', at='DayCountCalculator.include_datetimes')
