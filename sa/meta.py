"""Property texts; gen.py turns them into properties.jsonl and MANIFEST.json."""
import os
SRC = 'fixedIncome/src/'
P = {}


def prop(pid, title, statement, over, quant, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, title
    P[pid] = dict(id=pid, title=title, statement=' '.join(statement.split()), quantifier=dict(over=over.split(), text=' '.join(quant.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=[SRC + f for f in files],
                               mechanism=[dict(name=n, where=SRC + w) for n, w in mech],
                               state=[dict(name=n, meaning=m, where=SRC + w) for n, m, w in state],
                               observe_at=list(observe), hook_needed=None))


DCC = 'scheduling_tools/day_count_calculator.py'
SCH = 'scheduling_tools/scheduler.py'
HOL = 'scheduling_tools/holidays.py'
CF = 'assets/base_cashflow.py'
UST = 'assets/us_treasury_instruments/us_treasury_instruments.py'
COR = 'assets/credit/corporate_bond.py'
LOAN = 'assets/credit/loan.py'
SWAP = 'assets/rates/linear_rates/interest_rate_swap.py'
FUT = 'assets/rates/linear_rates/interest_rate_future.py'
CDS = 'assets/credit/credit_default_swap.py'
CUR = 'curves/base_curve.py'
YC = 'curves/yield_curves/yield_curve.py'
DEF = 'curves/credit_curves/default_models.py'
KR = 'risk/key_rate.py'
RM = 'risk/risk_metrics.py'
PF = 'portfolio/base_portfolio.py'
PO = 'portfolio/portfolio_optimization.py'
BM = 'stochastics/brownian_motion.py'
BP = 'stochastics/base_processes.py'
GBM = 'stochastics/geometric_brownian_motion.py'
SR = 'stochastics/short_rate_models/base_short_rate_model.py'
AFF = 'stochastics/short_rate_models/affine_yield_curve_models/'
VAS, DBL, TRB, SMP, MIX = AFF + 'vasicek_model.py', AFF + 'doubly_mean_reverting_vasicek.py', AFF + 'trebly_mean_reverting_vasicek.py', \
    AFF + 'stochastic_market_price_of_risk.py', AFF + 'affine_model_mixin.py'
CAL = 'stochastics/calibrators/factorized_calibrator.py'

prop('C01', 'Day-count year fractions follow their convention for every pair of dates', '''
For every start and end date with start not after end, the accrual length is the one its convention defines: actual days over 360, 365 or 365.25,
30/360 with its month-end and end-of-February adjustments, and actual/actual with each day weighted by the length of its own year. An end before
the start and an unknown convention are rejected with an exception.''', 'inputs', 'all pairs of calendar dates, all conventions',
     'The six tests sample a handful of dates; leap years, month ends, year boundaries and same-year cases multiply far beyond them.',
     [DCC], [('compute_accrual_length dispatch', DCC), ('one formula per convention', DCC)], observe=['accrual length of a date pair'])
prop('C02', 'Intraday accruals interpolate the whole-day accruals', '''
When a start or end carries a time of day, the accrual length is the whole-day accrual of the enclosed days plus the share of the partial first and
last day measured in elapsed seconds, for every convention; an instant before the start is rejected. For the actual conventions this equals elapsed
seconds over the seconds of the basis year.''', 'inputs', 'all pairs of instants, or of an instant and a day, all conventions',
     'Tests never mix dates and instants across month or year ends and sample two timestamps.', [DCC],
     [('datetime augmentation of the date formulas', DCC)], observe=['accrual length of a pair of instants', 'length of a time span in years'])
prop('C03', 'Business days are weekdays that no holiday is observed on', '''
A date is a business day exactly when it is Monday to Friday and no holiday of the given calendar is observed on it, including a holiday whose
observed day falls in the neighbouring year. Every holiday of the built-in federal calendar is observed on the weekday its rule defines (a fixed date moved off
weekends, or the first given weekday on or after a date) in every year, and generating holidays over a range of years covers every year of the range
inclusively.''', 'inputs configurations', 'all dates, all holiday calendars, all years',
     'Tests sample holidays of two years; weekday patterns repeat only over 400 years and year-boundary observation is never sampled.',
     [SCH, HOL], [('business-day predicate', SCH), ('holiday generation and observation', HOL)], observe=['business-day test', 'generated holiday dates'])
prop('C04', 'Business-day movement and settlement dates step over exactly business days', '''
Moving by n business days first rolls forward to a business day and then steps to the n-th business day after (or before) it; the following and
modified-following adjustments return the nearest permitted business day, the latter never leaving the month forward. Each settlement convention
moves the purchase date by exactly its stated number of business days, and an unknown convention or stepping from a non-business day where forbidden is rejected.''',
     'inputs configurations', 'all dates, all counts, all holiday calendars', 'Tests sample a few dates around one Christmas; holiday clusters and month ends combine without bound.',
     [SCH], [('add/subtract business days', SCH), ('settlement conventions', SCH)], observe=['moved dates', 'settlement dates'])
prop('C05', 'Generated date schedules are exact, ordered and bounded', '''
A schedule generated by increments holds start, start plus one increment, start plus two increments and so on, never drifting off the start day's
month position, stopping at the last one not beyond the end in the increment's direction and at the requested maximum count. The list of business days in an interval holds exactly the
business days between the two dates inclusive, in order.''', 'inputs', 'all start and end dates, all increments (days, hours or months and mixtures of them, forwards or backwards), all caps',
     'Tests sample two increments between two dates and never a month-end start.', [SCH], [('date generation loops', SCH)], observe=['generated date lists'])
prop('C06', 'Cashflow schedules stay ordered and collections stay coherent', '''
A cashflow holds exactly the payments it was given, in payment-date order (those of one date in the order given), however it was built, iterated, indexed, sliced or extended, and shares no list with its caller; amounts and dates are
read off in that order (a series or table of it too), and dates and amounts of different lengths are rejected. A collection of cashflows looks each one up by its key, and its key list,
cashflow list, length, membership and iteration agree with each other after a cashflow is replaced or added. A zero coupon bond pays one unit on its payment date and
gives the curve knot of its payment date and price.''', 'inputs histories', 'all payment lists, all cashflows, all keys',
     'There are no tests of the container itself; ordering faults only show with unsorted input.', [CF],
     [('Cashflow container', CF), ('CashflowCollection container', CF), ('ZeroCoupon', CF)], observe=['schedule, amounts, dates', 'cashflow lookup'])
prop('C07', 'Cashflow present value discounts every future known payment once', '''
The present value of a cashflow on a discount curve is the sum, over the payments with a known amount dated on or after the curve reference date, of
the amount times the discount factor of its payment date, whether asked of the cashflow or of the curve; earlier payments and payments of unknown amount
count nothing. It is additive over payments and linear in the amounts.''', 'inputs', 'all payment lists, all discount curves',
     'Tests value single bonds on flat curves and never place a payment on or around the valuation date.', [CF, CUR],
     [('Cashflow.present_value', CF), ('DiscountCurve.present_value', CUR)], observe=['present value'])
prop('C08', 'Bond schedules pay the right coupons on the right dates', '''
A Treasury bond or note and a fixed-rate corporate bond pay a coupon of principal times coupon rate over payments per year on every date obtained by stepping back
from maturity in whole coupon periods while later than the date interest starts (its tenor in years or months before maturity), each moved by the bond's business-day adjustment,
and repay the principal on the adjusted maturity date; a zero coupon bond pays no coupon. They settle by their settlement convention and their curve knot
is the price at their last payment date. Both classes agree, and an unsupported frequency, tenor unit or adjustment is rejected.''', 'inputs configurations',
     'all maturities, tenors, frequencies, adjustments, settlement conventions and holiday calendars', 'The tests build three Treasury bonds on one calendar; the corporate class has no tests.',
     [UST, COR], [('coupon and principal cashflows', UST), ('coupon and principal cashflows', COR)], observe=['coupon dates and amounts', 'principal repayment', 'settlement date', 'curve knot'])
prop('C09', 'Accrued interest and full price follow the coupon period of settlement', '''
The accrued interest of a bond at a reference date is its coupon times the share of the coupon period that has accrued at the settlement of that date, the period running between
the unadjusted coupon dates around it (or from the date interest starts), under the bond's day-count convention; a date settling before interest starts is rejected, and a zero coupon bond
accrues nothing. The full price is the clean price plus accrued interest per 100 of principal, at purchase or at any requested date, and asking for another date changes nothing on the bond.''',
     'inputs configurations', 'all purchase and reference dates, coupon schedules, conventions, principals', 'The tests check the accrued interest of one bond at its purchase date.',
     [UST, COR], [('calculate_accrued_interest', UST), ('get_full_price', UST), ('calculate_accrued_interest', COR), ('get_full_price', COR)], observe=['accrued interest', 'full price'])
prop('C10', 'Bond values discount exactly the payments the purchaser receives', '''
At a reference date a bond holder receives the payments whose unadjusted date is on or after the settlement of that date. The value at a single rate discounts each of them, principal included, with
compounding at the payment frequency over the accrual from the reference date to its payment date; the value on a discount curve sums amount times discount factor for the curve's reference date;
and the yield to maturity is the rate at which the first of these equals the full price of the whole principal at that date.''', 'inputs configurations',
     'all payment lists, rates, discount curves, reference dates, frequencies and conventions', 'The tests compare the yield of two bonds with market values to a few digits; settlement and principal scaling cannot show.',
     [UST, COR], [('is_payment_received', UST), ('discount_cashflows_by_fixed_rate', UST), ('yield_to_maturity', UST), ('present_value', UST), ('same methods', COR)],
     observe=['bond value at a rate', 'bond value on a curve', 'root equation of the yield'])
prop('C11', 'Bond sensitivities are central differences of the bond value', '''
For the value V(y) of a bond at a single rate, pv_deriv is the central difference of V over one basis point around the yield (or the given rate plus offset), duration is minus that slope
at the bond's own yield over the full price of the whole principal, convexity is the second central difference with one-basis-point steps over the same price, and Macaulay duration is the discounted
time-weighted sum of the payments received from its reference date, over the full price of the whole principal at that date.''', 'inputs', 'all bonds, yields and reference dates',
     'No test calls these on a corporate bond and none checks convexity.', [UST, COR, RM], [('pv_deriv, duration, convexity', UST), ('pv_deriv, duration, convexity, macaulay_duration', COR)],
     observe=['slope, duration, convexity, Macaulay duration'])
prop('C12', 'Loan payments amortise the principal with interest on what is left', '''
A loan pays on the first (or last) day of each month at its payment frequency from the first such day after origination until its term later. Each payment consists of the interest
accrued since the previous payment date on the principal still outstanding and a repayment of principal; what is not interest of the payment amount plus the extra payment (none, a fixed number, or a
list padded with zeros) repays principal, never more than is left. The fixed payment is the annuity amount of the rate per period and term, and the loan's value
discounts the fixed payment schedule on a curve. An unsupported frequency or payment time is rejected.''', 'inputs configurations histories',
     'all principals, rates, origination dates, terms, frequencies, payment amounts and extra payments', 'Two tests check the sum of principal payments of one mortgage.',
     [LOAN], [('calculate_fixed_payment_amount', LOAN), ('generate_payment_schedule', LOAN), ('_calculate_interest_payment', LOAN), ('present_value', LOAN)],
     observe=['payment dates, amounts, principal and interest parts', 'fixed payment', 'loan value'])
prop('C13', 'Swap legs accrue and pay on the periods their terms define', '''
A swap accrues from the settlement of its purchase date for its tenor in years or months. Each leg's accrual periods join consecutive dates obtained by stepping back from the end of the swap
in whole payment periods (quarterly, semi-annual or annual) while not before its start, moved by the swap's business-day adjustment, with the accrual factor of the leg's own day-count convention. Every period pays, at its end plus
the payment delay, accrual factor times notional times rate: the fixed rate on the fixed leg; on the floating leg the rate at the fixing date of the period's start for a term swap, and the
overnight rates of the period's business days compounded and annualised for an overnight swap. Legs are stored on the swap only when asked. The swap keeps the terms it was given; its curve knot is its end date and fixed rate.
Unsupported frequencies, tenor units and adjustments are rejected.''', 'inputs configurations', 'all purchase dates, tenors, frequencies, conventions, holiday calendars, rate functions',
     'No stable test builds a swap; calendar clusters and stubs combine without bound.', [SWAP],
     [('accrual schedules', SWAP), ('generate_fixed_leg_cashflow', SWAP), ('generate_floating_leg_cashflow', SWAP), ('calculate_annualized_rate', SWAP)],
     observe=['accrual periods', 'leg payments', 'compounded rate', 'curve knot'])
prop('C14', 'Swap value is the signed difference of its legs, nil at the fair rate', '''
The present value of a swap on a discount curve is fixed minus floating leg value when receiving fixed and the opposite when paying it; valuing it without both legs or with an unknown
direction is rejected. The implied rate is the present value of the floating leg over the discounted fixed-leg accruals times notional, so a swap struck at that rate, with all payments in the future, is worth nothing; computing it leaves the
fixed rate of the swap unchanged and stores the floating leg only when asked.''', 'inputs configurations',
     'all leg payments, discount curves, rate functions, directions', 'No stable test values a swap.', [SWAP],
     [('present_value', SWAP), ('implied_rate', SWAP)], observe=['swap value', 'implied rate', 'stored legs'])
prop('C15', 'Curves interpolate their knots and treat the ends as configured', '''
A curve's value at a date is the interpolation, by its method (previous, linear, quadratic or cubic spline), of its knot values in date order over the accrual of their dates from the reference date
under the curve's day-count convention. Before the first and after the last knot it is the knot's value where that end is held constant and an error where it is not, each end on its own. An adjustment
function adds its value at the requested date. A curve without reference date starts at its first knot, and a knot order given differently gives the same curve.''', 'inputs configurations',
     'all knots, dates, methods, end behaviours, day-count conventions and adjustments', 'Tests evaluate two curves at a few dates; ends, adjustments and methods combine.',
     [CUR], [('Curve.interpolate', CUR), ('date_to_interpolation_axis', CUR), ('_create_interpolation_object', CUR)], observe=['curve value'])
prop('C16', 'A curve stays coherent when its knots are replaced', '''
After its knots are replaced, all at once or one of them, a curve behaves in every way as one newly built from the new knots with its settings: values, interpolation, order of knots, first and last knots; repeated replacement
keeps nothing of older knots, the reference date stays, evaluating a curve changes nothing, and lists of knots given to it are not modified.''', 'histories inputs',
     'all knots, replacements and sequences of them', 'Tests replace one value once and read one number.', [CUR],
     [('reset_interpolation_values', CUR), ('reset_interpolation_value', CUR)], state=[('knots', 'knot values in date order', CUR)], observe=['curve value', 'knots', 'reference date'])
prop('C17', 'A yield curve converts to the discount curve its space defines', '''
A yield curve interpolates the knots of its instruments, each shifted by its quote adjustment if given. Converted to discount factors, a curve in the space of discount factors gives a curve through its own knots,
each bumped by the adjustment, and a curve of continuously compounded yields gives exp(-(yield + adjustment) times accrual) on every day from reference date to last knot; other spaces are refused.
Each conversion reflects the current knots and its own adjustment only, disturbs no curve handed out before, and leaves the yields as they were. The present value of an instrument is its value on that discount curve.''',
     'inputs configurations histories', 'all knots, adjustments, spaces, methods and sequences of conversions', 'The tests build three curves from one set of bonds and never convert twice.', [YC, CUR],
     [('to_discount_curve', YC), ('present_value', YC), ('quote adjustments', YC)], state=[('discount_curve', 'last conversion', YC)], observe=['discount factors', 'yields', 'present value'])
prop('C18', 'Calibrated yield curves solve the pricing equations of their instruments', '''
Calibrating at once sets every knot to the root of the system that each instrument's present value on the curve equals its price. Bootstrapping takes the instruments in knot order and sets each
knot to the root of its own instrument's equation with the earlier knots at their solutions. The curve returned carries the solutions at the instruments' knot dates, interpolates by the requested method from the requested reference date in the space of continuously compounded yields,
whichever order the instruments come in and even if they can be iterated only once; the instruments given are not modified.''', 'inputs configurations', 'all instruments, prices and payment dates (one to three instruments)',
     'One test prices one set of bonds on one calibrated curve; bootstrapping is not tested.', [YC],
     [('construct_yield_curve', YC), ('bootstrap_yield_curve', YC)], observe=['equations handed to the solver', 'knots of the calibrated curve'])
prop('C19', 'A key rate is a tent of its bump between its neighbouring dates', '''
A key rate adjusts a date by its bump at its own date, falling linearly in accrued time (its day-count convention) to zero at the prior and at the next date and zero beyond them; without a prior (next)
date it stays at the bump on all earlier (later) dates. Setting the bump, the prior or the next date gives exactly the key rate built with them; a prior date not before, or a next date not after, its own date is
refused and changes nothing. Key rates are ordered by date, and equal, with the same hash, when date and day-count convention are.''', 'inputs configurations', 'all dates, neighbours, bumps and conventions',
     'The tests evaluate three key rates at a few dates with one convention.', [KR], [('KeyRate.create_adjustment_function', KR), ('set_prior_date, set_next_date, set_bump_val', KR)], observe=['adjustment at a date'])
prop('C20', 'A key rate collection stays ordered, linked and additive as it changes', '''
However a key rate collection is built or changed (construction in any order, append, insert, in-place and other addition, replacement, deletion, slicing), its key rates are distinct and in date order, each has the
dates of its neighbours in the collection as prior and next date and no others at the ends, its adjustment at any date is the sum of theirs, and setting its bump sets that of each, so that together they
shift every date by the bump. Sums and slices are independent of the collections they come from; a replacement out of order, an empty collection and two key rates of one date are refused and change nothing.''',
     'histories inputs', 'all sequences of changes with up to three key rates plus one added, all dates', 'The tests make one collection of three, and change it once each.', [KR],
     [('KeyRateCollection.__init__, _set_dates_in_collection', KR), ('__setitem__, __delitem__, insert, __iadd__, __add__, __getitem__', KR), ('_create_combined_adjustment_function', KR)],
     state=[('key_rates', 'ordered key rates linked to their neighbours', KR)], observe=['key rates and their neighbours', 'adjustment at a date', 'length'])
prop('C21', 'Key rate risk is the central difference in the bump and changes nothing', '''
The key rate derivative of an instrument on a yield curve is its present value with the curve adjusted by the key rate's tent of half a basis point, minus that of minus half a basis point, over one basis point,
whatever bump the key rate carries; the risk is that derivative times one basis point, at the key rate's date and the curve's index; the risk ladder has the risk of every key rate of a collection, in order.
Afterwards the curve, its knots, earlier discount curves and the key rates (bump included) are as before. Curves in a space without conversion to discount factors refuse.''', 'inputs configurations histories',
     'all knots, instruments, key rates and collections (up to three), both convertible spaces', 'No stable test calculates a key rate risk.', [YC, KR, RM],
     [('calculate_key_rate_deriv', YC), ('calculate_pv01_risk, calculate_pv01_risk_ladder', YC)], observe=['derivative', 'risk', 'risk ladder', 'bump of the key rates', 'curve values'])
prop('C22', 'Portfolio value and risk ladders aggregate every entry exactly once', '''
The present value of a portfolio is its cash plus the sum over entries of quantity times the asset's present value on the curve, however the entries are supplied, however often it is asked and whatever happens to the caller's list
afterwards. Its key rate collection has one key rate per distinct knot date of its assets, in date order, linked as a collection. Iterating, and stepping with next, visits every entry once in order and starts over after the end.
A risk ladder lists the dates, values and indices of its risks in the order given and contains exactly the risks of equal index, date and value.''', 'inputs histories', 'all entries, quantities, cash amounts and curves; ladders of any length',
     'No stable test builds a portfolio or a risk ladder.', [PF, RM, KR], [('Portfolio.present_value', PF), ('to_key_rate_collection', PF), ('RiskLadder', RM)], observe=['portfolio value', 'key rates', 'iteration', 'membership'])
prop('C23', 'Brownian paths follow their grid, correlation and seed', '''
The increments of a Brownian motion live on the grid from its start by the given increment, closed at its end date when the last step would overshoot. The step lengths are the accruals between neighbouring grid dates under its day-count
convention. The increments are the seeded standard normals, scaled by the root of the step length, with the Cholesky factor of the correlation matrix applied across components (none: the identity).
A path is zero at the start and adds the increments up one by one; the same seed gives the same path whatever was generated before; a path is kept on the object only when asked to be set.''', 'inputs configurations histories',
     'all dates, increments, seeds and conventions, one to three components, all correlations', 'The test compares one seed in one dimension with a stored number.', [BM],
     [('generate_increments', BM), ('generate_path', BM)], observe=['increments', 'step lengths', 'grid', 'path'])
prop('C24', 'A path is read exactly on its grid and linearly in between', '''
Reading a simulated path at a grid date gives the value simulated there; between grid dates it is the linear interpolation in accrued time (of the path's day-count convention) between the two neighbours, component by component. Reading before any
path was set, before the start or after the end is a ValueError. A path is read on the grid it was simulated on, whatever increments or unset paths are generated later.''', 'inputs histories', 'all grids, dates, conventions and path values',
     'Tests read a path at grid dates only.', [BM], [('datetime_to_path_call', BM), ('BrownianMotion.__call__', BM)], observe=['value of the path at a time'])
prop('C25', 'Diffusions follow the Euler scheme of their drift and volatility', '''
A diffusion path starts at the given state and adds, step by step, drift(time, state) times the step length plus diffusion(time, state) applied to the Brownian increments, every state variable from the same previous state and the time accrued since the start; it has one row
per state variable. The starting value given is not modified, and a list serves as well as an array. The path is kept only when asked to be set, is read on its own grid, and is dropped by a new increment. Geometric Brownian
motion has drift mu x and volatility sigma x in each component, on a Brownian motion with its correlation (independent by default) and steps of an hour unless given.''', 'inputs histories', 'all drift and diffusion functions, increments and starting values; one state variable on any grid, up to three on given grids',
     'Tests run a few paths with fixed seeds.', [BP, GBM], [('DiffusionProcess.generate_path', BP), ('GeometricBrownianMotion.generate_path', GBM)], observe=['simulated path', 'value at a time'])
prop('C26', 'Short-rate paths, their integrals and their curves belong together', '''
A short rate path is the transformation applied to the simulated state variables, step by step. Its integral over given dates (by default its own grid) is zero at the first and adds the trapezoid of the short rates at neighbouring dates times their accrual; the discount curve has exp(-integral) and the
accrual curve exp(integral) at those dates, linear in between in the model's day count from the model's start and refused outside them. Whatever was derived from an earlier path is dropped when a new path is set or the increment changes, which reaches the state variables too; a path that is not set changes nothing.
Without a path, integral and curves are refused.''', 'inputs histories', 'all short-rate functions, dates, conventions and sequences of generating paths, curves and increments', 'No stable test builds a curve from a path or generates a second path.',
     [SR], [('ShortRateModel.generate_path', SR), ('generate_integrated_path', SR), ('create_discount_curve, accrual_curve', SR), ('_reset_paths_and_curves', SR)], state=[('integrated_path, discount_curve', 'derived from the current path', SR)], observe=['short rate path', 'integral', 'discount factors', 'accrual factors'])
prop('C27', 'Vasicek prices, yields, rates and volatilities have their closed forms', '''
With B = (1 - exp(-k t)) / k for the accrual t from purchase date (by default the start) to maturity, and r the short rate at the purchase date, a zero-coupon bond is worth exp((theta - s^2 / 2k^2)(B - t) - s^2 B^2 / 4k - B r); its yield is minus the log price over t,
its yield volatility s B / t and its price convexity minus half its price times (s B)^2; the instantaneous forward rate is r exp(-k t) + theta (1 - exp(-k t)) - s^2 B^2 / 2 with volatility s exp(-k t); the short rate has mean r exp(-k t) + theta (1 - exp(-k t)),
average mean theta + (r - theta) B / t and variance s^2 (1 - exp(-2 k t)) / 2k. The yield is the average expected rate plus the yield convexity. The path drifts by k (theta - r) with volatility s. Parameters set from the calibration
dictionary are used by all of these. What needs the short rate is refused before a path is set.''', 'inputs configurations', 'all parameters, short rates, purchase and maturity dates and day-count conventions',
     'The stable tests do not import the model.', [VAS, SR], [('VasicekModel', VAS), ('vasicek_drift_diffusion', VAS)], observe=['prices', 'yields', 'rates', 'volatilities', 'simulated path'])
prop('C28', 'Multi-factor Vasicek models are wired to their stated dynamics', '''
The doubly mean-reverting model has a long-term factor reverting to the long term mean at its speed and a short rate reverting to that factor at the short rate's speed; the trebly model puts a medium factor between them; the stochastic market price of risk model has
a price of risk reverting to its mean, a medium rate drifting by its speed times (mean - rate) plus the price of risk times its volatility, and a short rate reverting to it. Reversion matrix, reversion level and drift functions agree; the covariance of the shocks is built from the given volatilities and the
correlation of each pair; the short rate is the last factor; start, end and step are the given ones. In the general model states step by K (theta - x) dt + S dW in order, the short rate is mu + g.x at grid points and in between, and sizes that do not fit are refused. A doubly mean-reverting model built from its
calibration dictionary has the same parameters and the starting state and seed given.''', 'inputs configurations', 'all parameters, states, shocks, dates and steps', 'The stable tests look at long-run averages of one parameter set.',
     [VAS, DBL, TRB, SMP, SR], [('DoublyMeanRevertingVasicek', DBL), ('TreblyMeanRevertingVasicek', TRB), ('StochasticMarketPriceOfRisk', SMP), ('MultivariateVasicekModel.__init__', VAS)], observe=['drift', 'covariance', 'short rate', 'simulated states'])
prop('C29', 'Multi-factor affine prices, yields and rates have closed forms', '''
For states dx = K (theta - x) dt + S dW with short rate mu + g.x, K diagonalisable, the log price of a zero-coupon bond with accrual t from the purchase date (by default the start) is A + B.x for the state x at the purchase date, where B' = -K^T B - g, A' = -mu + B.K theta + B^T S S^T B / 2 and A, B vanish at t = 0.
The yield is minus that over t, the forward rate minus its derivative in t; price derivatives in state and maturity follow. States have mean theta + exp(-K t)(x - theta) and covariance the integral of exp(-K s) S S^T exp(-K^T s); the short rate's mean, time-averaged mean and variance follow. Yield and forward covariances are b_i^T S S^T b_j for the coefficients b
at each maturity, volatilities their roots, price convexities minus half the price times B^T S S^T B, and yield convexity the yield less the average expected rate. Weights of a riskless portfolio sum to one and cancel every sensitivity; its convexity is the weighted sum. Maturities may come from any iterable, the process's day count is used, and
yields, averages and forward covariances for maturities not after the purchase date are refused.''', 'inputs configurations', 'all parameters and states of models with one or two state variables and a triangular reversion matrix, all dates, three conventions', 'The stable tests do not price bonds in the multi-factor models.',
     [VAS, MIX], [('MultivariateVasicekModel', VAS), ('AffineModelMixin', MIX)], observe=['prices', 'yields', 'rates', 'covariances', 'weights'])
prop('C33', 'Portfolio optimiser solves the problems it states', '''
The minimum-variance portfolio for a target return minimises w'Vw over weights that sum to one and earn the target under the mean vector; the maximum-utility portfolio minimises (risk aversion times initial wealth / 2) w'Vw - w'm over weights that sum to one. Weights are
non-negative unless short positions are allowed, then unrestricted. The gradients handed to the solver are those of the objectives. The efficient frontier has the returns from lower to upper (by default the least and greatest mean, one increment inside) in steps of the increment, the upper end included,
with the minimum-variance weights of each under the same rule on short positions and the roots of their variances. The Sharpe ratio is the return over the risk-free rate per unit of volatility.''', 'inputs configurations', 'all means, covariances, targets, ranges and parameters of one to three assets; the solver is taken at its word',
     'No test covers the optimiser.', [PO], [('find_minimum_variance_portfolio, find_maximum_utility_portfolio', PO), ('calculate_efficient_frontier, sharpe_ratio', PO)], observe=['weights', 'frontier', 'ratio'])
prop('C34', 'Simulated defaults are the first time the hazard strikes', '''
Each simulated path looks at the times dt, 2 dt, ... strictly before maturity, draws one uniform number at each until it defaults, and defaults at the first time whose draw does not exceed the hazard rate at that time multiplied by dt; a path that never defaults before maturity is not-a-number. The result
has one entry per path.''', 'inputs histories', 'all hazard rates and random draws; grids of up to three steps and up to three paths', 'No test runs the simulation; one seeded run would fix one history.',
     [DEF], [('default_bernoulli_paths', DEF)], observe=['default times'])
prop('C35', 'Calibration fits volatilities, then prices, and keeps the minimum', '''
Calibrating the volatilities of a doubly mean-reverting Vasicek model minimises the sum of squared differences between the given yield volatilities and those, at the same maturities, of a model built from the candidate volatility parameters with level, starting state, start, end and step held; calibrating the shape minimises
the sum of squared differences between given and model zero-coupon prices over level and starting state with the volatility parameters held. Every parameter is searched in [0, 1]. Afterwards the model's calibration parameters are the minimising ones and the other group is unchanged. The full calibration
does the two in that order and returns a model with both results and the same start, end and step. A model built from calibration parameters keeps them, starting state included, as lists of its own. Inputs are ordered by maturity and may be given once, as an iterator.''', 'inputs configurations histories',
     'all models, dates, steps and values; one to three inputs of each kind; the solver is taken at its word', 'No test runs the calibrator.',
     [CAL, DBL], [('calibrate_volatility_parameters', CAL), ('calibrate_shape_state_variable_parameters, calibrate', CAL), ('from_volatility_shape_parameters', DBL)], state=[('parameter_calibration_dict', 'the minimising parameters after calibration', DBL)], observe=['minimisation problem', 'calibration parameters'])
prop('C30', 'Every operation resolves to something that exists', '''
In the library's code (what importing it runs and every function and method it defines, the unfinished ones listed as findings aside): every name read is bound by the function, its module, an import or Python; every name imported from the library or the standard library exists; every attribute read on the object
itself, on a class, enumeration member, module or value of declared class exists on it; every call of a library function, constructor or standard function binds to the parameters of its target, also through super(); every class that declares no abstract method of its own implements those it inherits;
whatever the methods of a class read of the object is set by its construction, its body or another method. Exceptions that are made are raised, no handler silently swallows every exception, and a function that declares a result returns one or raises.''', 'inputs configurations',
     'all functions, methods and module statements of the library', 'Tests only reach the lines they run; most refusals, plots, rare branches and whole classes are never run.',
     [DCC, SCH, CF, UST, COR, LOAN, SWAP, FUT, CDS, CUR, YC, KR, RM, PF, PO, BM, BP, SR, VAS, CAL], [('CashflowCollection', CF), ('Curve, DiscountCurve', CUR), ('ShortRateModel', SR)], observe=['NameError, AttributeError, TypeError, ImportError on any operation', 'silently missing results or errors'])
prop('C31', 'Asking for a value changes nothing', '''
Valuing, pricing, discounting, accruing, iterating, indexing and comparing leave everything that can be seen of the objects involved as it was, also when the question is refused with an exception: payments and terms of cashflows, bonds, swaps and loans (asking a swap for its fair rate, or for a leg without keeping it, leaves its legs);
knots and values of curves; dates and bump of key rates and key-rate collections when derivatives, risks and risk ladders are computed; entries of a portfolio; the simulated path and parameters of a short-rate model. Lists and iterators handed to a cashflow, collection, ladder or portfolio are read once and not
followed or changed afterwards, and changing one object leaves others made from the same inputs as they were.''', 'inputs histories', 'all payments, curves, dates, quotes and terms; bonds of two coupons, key-rate collections of two, portfolios of two, paths of two steps',
     'A test would have to compare everything before and after every operation, refused ones included.', [CF, UST, COR, LOAN, SWAP, CUR, YC, KR, RM, PF, VAS],
     [('Cashflow, CashflowCollection', CF), ('UsTreasuryBond', UST), ('FixedRateBond', COR), ('implied_rate', SWAP), ('calculate_key_rate_deriv', YC), ('KeyRate, KeyRateCollection', KR), ('VasicekModel, MultivariateVasicekModel', VAS)],
     state=[('bump_val', 'restored after every derivative', KR), ('fixed_leg, floating_leg', 'set only by the generators', SWAP)], observe=['every visible attribute and value before and after'])
prop('C32', 'Answers do not depend on what was asked before', '''
The same question about the same thing has the same answer, whatever was asked before. Business days, adjusted and settlement dates, schedules, holidays and year fractions are those of the dates, calendar and convention given, also after the same was asked with another calendar, convention or date.
Values, prices, accrued interest, yields, durations, derivatives, risks, interpolated values, discount curves, legs, payment schedules, key-rate bumps, short-rate moments, bond prices under a model and optimal portfolios are those of the object asked and the arguments given: asking with other arguments before, or asking
another object of the same kind before, makes no difference; and after an object is changed (a payment added, a leg or coupons replaced, knots reset, a bump or neighbouring date set, key rates inserted or removed, a path generated anew, model parameters set from the calibration dictionary) the answer is that of the
changed object, also when the same was asked before the change. Simulated increments and paths with a seed, fitted curves and two-factor models are likewise those of their own inputs.''', 'inputs histories', 'all dates, calendars, payments, knots, terms, rates and parameters; one question before the one compared; bonds of two coupons, swaps of one period, key-rate collections of two, calibration to two instruments, paths of two steps or any grid',
     'A result remembered under too few arguments, or past a change, shows only to a caller who asks twice in a particular order.', [SCH, HOL, DCC, CF, UST, COR, LOAN, SWAP, CUR, YC, KR, RM, PF, PO, BM, BP, GBM, VAS],
     [('Scheduler', SCH), ('generate_all_holidays, generate_holiday_dates', HOL), ('DayCountCalculator.compute_accrual_length', DCC), ('Cashflow, CashflowCollection', CF), ('UsTreasuryBond', UST), ('FixedRateBond', COR), ('Curve, DiscountCurve', CUR),
      ('YieldCurve, YieldCurveFactory', YC), ('KeyRate, KeyRateCollection', KR), ('VasicekModel, MultivariateVasicekModel', VAS)],
     state=[('discount_curve', 'written at every conversion, never read back', YC), ('adjustment_fxcn', 'rebuilt at every change of a key rate', KR)], observe=['the answer to a question asked after another'])
NA = {}
PENDING = set()
TECHNIQUE = {'C30': 'resolution rules over the syntax trees: scopes, imports, class graph, attributes, call signatures'}
NOTES = {'C30': 'A finding is made only where the target is certain: values of unknown class, classes with unknown bases or attributes set by name, names inside try/except of the matching error and code under the main guard are passed over.'}
