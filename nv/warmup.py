"""One small model and simulation, so that forked workers inherit the compiled graph and solver code."""


def build():
    from numerous.engine.system import Item, Subsystem
    from numerous.multiphysics import EquationBase, Equation

    class WarmItem(EquationBase, Item):
        def __init__(self, tag):
            Item.__init__(self, tag)
            EquationBase.__init__(self, tag)
            self.add_state('x', 1.0)
            self.add_parameter('y', 0.5)
            self.create_namespace('n').add_equation(self)

        @Equation()
        def eq(self, scope):
            scope.x_dot = -scope.x + scope.y

    class WarmSystem(Subsystem):
        def __init__(self, tag='w'):
            super().__init__(tag)
            self.register_items([WarmItem('a'), WarmItem('b')])
    return WarmSystem()


def model(sim=True):
    from numerous.engine.model import Model
    from numerous.engine.simulation import Simulation
    m = Model(build(), use_llvm=False)
    if sim:
        s = Simulation(m, t_start=0, t_stop=1, num=5)
        s.solve()
    return m
