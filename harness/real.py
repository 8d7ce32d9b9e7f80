"""Programs over the real dictionaries (pymorphy2), of the kind the documentation shows."""
from ylib import *
from yargy.tokenizer import EMAIL_RULE, PHONE_RULE, RULES
from yargy.predicates import is_capitalized, is_title, is_upper, is_lower, dictionary, normalized

TEXTS = [
    'управляющий директор Иванов Ульяновск',
    'Мария Ивановна и Пётр Петрович Сидоров приехали 12 мая 2016 г. в город Москву.',
    'президент Николя Саркози, министр обороны Шойгу и вице-президент Франции',
    'саша иванова, саше ивановой; саша иванов пошёл в лес',
    'больше 100 рублей, 25 копеек и 3 доллара США — не 7 евро',
    'моей 1-й жене Наташе Ё. 18 июня 1951 года',
    'красивая девочка увидела красивого мальчика красивые дети',
    'ООО "Рога и копыта" купило 300 тонн стали на заводе в Нижнем Новгороде',
    'стали стали мыла раму кофе метро пальто',
    'test@mail.ru, +7 921 000-00-00, USD 10.5 %\nвторая строка\tс табуляцией',
    'улица Ленина, д. 5, корп. 2; проспект Мира 10',
    '',
]


def upto(f, name):
    f.__name__ = name
    return f


def programs():
    out = []
    def prog(name):
        def deco(f): out.append((name, f)); return f
        return deco

    @prog('person')
    def _():
        Name = fact_('Name', ['first', 'middle', 'last'])
        Person = fact_('Person', ['position', 'name'])
        gnc = gnc_relation()
        last = and_(gram('Surn'), is_capitalized()).interpretation(Name.last.inflected()).match(gnc)
        first = and_(gram('Name'), is_capitalized()).interpretation(Name.first.inflected()).match(gnc)
        middle = gram('Patr').interpretation(Name.middle.normalized()).match(gnc)
        name = or_(rule(first, middle, last), rule(first, last), rule(last, first), rule(first, middle), first, last).interpretation(Name)
        pos = morph_pipeline(['управляющий директор', 'вице-президент', 'президент', 'министр обороны']).interpretation(Person.position.normalized())
        return rule(pos.optional(reverse=True), name.interpretation(Person.name)).interpretation(Person)

    @prog('adjectives')
    def _():
        gnc = gnc_relation()
        Np = fact_('Np', ['adj', 'noun', attribute('all').repeatable()])
        return rule(gram('ADJF').match(gnc).interpretation(Np.adj.inflected({'nomn', 'sing', 'masc'})),
                    gram('NOUN').match(gnc).interpretation(Np.noun.inflected({'datv', 'plur'}))).interpretation(Np)

    @prog('money')
    def _():
        Money = fact_('Money', [attribute('amount', 0), 'currency', attribute('kind', 'RUB')])
        amount = and_(type_('INT'), gte(1)).interpretation(Money.amount.custom(int))
        cur = or_(caseless_pipeline(['USD', 'доллара США', 'рублей']), morph_pipeline(['доллар', 'копейка', 'евро'])).interpretation(Money.currency.normalized())
        return or_(rule(amount, cur), rule(cur, amount)).interpretation(Money)

    @prog('date')
    def _():
        Date = fact_('Date', ['day', 'month', 'year'])
        MONTHS = {'январь', 'май', 'июнь', 'июль'}
        return rule(and_(gte(1), lte(31)).interpretation(Date.day.custom(int)), dictionary(MONTHS).interpretation(Date.month.normalized()),
                    rule(and_(gte(1000), lte(2100)).interpretation(Date.year.custom(int)), or_(rule(normalized('год')), rule(caseless('г'), '.')).optional()).optional(reverse=True)).interpretation(Date)

    @prog('address')
    def _():
        Addr = fact_('Addr', ['street', 'kind', attribute('parts').repeatable()])
        street = rule(in_caseless({'улица', 'проспект'}).interpretation(Addr.kind.normalized()), and_(gram('NOUN'), is_title()).interpretation(Addr.street))
        part = rule(or_(rule(in_({'д', 'корп'}), '.'), rule(',')).optional(reverse=True), type_('INT').interpretation(Addr.parts))
        return rule(street, eq(',').optional(reverse=True), part.repeatable(), rule(',', part).optional(reverse=True)).interpretation(Addr)

    @prog('words')
    def _():
        A = forward()
        gnc, num = gnc_relation(), number_relation()
        A.define(or_(rule(gram('ADJF').match(gnc), A), rule(gram('NOUN').match(gnc)), rule(main(gram('NOUN').match(num)), gram('VERB').match(num))))
        return A.named('Фраза')

    @prog('phrases')
    def _():
        X = fact_('X', ['w', 'v'])
        a = morph_pipeline(['сталь', 'стать', 'стал', 'мыло', 'мыть', 'мой', 'купить', 'дети', 'ребёнок', 'дитя', 'иванов', 'иван'])
        return or_(rule(a.interpretation(X.w.normalized()), a.interpretation(X.v.normalized())), rule(a.interpretation(X.w.normalized()))).interpretation(X)

    @prog('all')
    def _():
        X = fact_('X', [attribute('w').repeatable()])
        f = upto(lambda s: s[::-1], 'f')
        return or_(is_upper(), is_lower()).interpretation(yi.normalized().custom(f)).interpretation(X.w).repeatable(max=3).interpretation(X)
    return out
