"""Helpers that run the real zigpy_cc stack on the simulated coordinator."""
import asyncio

import zigpy.types as zt
from zigpy_cc.api import API
from zigpy_cc.config import SCHEMA_DEVICE
from zigpy_cc.zigbee.application import ControllerApplication

from . import mt, sim, vloop
from .engine import Violation, check

PORT = "/dev/null"


class App(ControllerApplication):
    """The real application; only what reaches zigpy is recorded."""

    def __init__(self, config):
        super().__init__(config)
        self.received = []
        self.joins = []
        self.losses = []  # when the library noticed an unexpected loss of the port
        self.pass_on = True  # hand messages on to zigpy
        self.refuse = None  # called with each message; it may raise as zigpy would
        self.pass_join = True  # hand joins on to zigpy
        self.refuse_join = None  # the same for joins

    def handle_message(self, sender, profile, cluster, src_ep, dst_ep, message):
        self.received.append(
            Msg(asyncio.get_event_loop().t, sender, int(profile), int(cluster),
                int(src_ep), int(dst_ep), bytes(message), sender.lqi, sender.rssi))
        if self.refuse is not None:
            self.refuse(self.received[-1])
        if self.pass_on:
            return super().handle_message(
                sender, profile, cluster, src_ep, dst_ep, message)

    def connection_lost(self):
        self.losses.append(asyncio.get_event_loop().t)
        return super().connection_lost()

    def handle_join(self, nwk, ieee, parent_nwk):
        self.joins.append((int(nwk), zt.EUI64(ieee).serialize(), int(parent_nwk)))
        if self.pass_join:
            super().handle_join(nwk, ieee, parent_nwk)
        elif zt.EUI64(ieee) not in self.devices:
            self.add_device(zt.EUI64(ieee), nwk)
        else:
            self.devices[zt.EUI64(ieee)].nwk = zt.NWK(nwk)
        if self.refuse_join is not None:
            self.refuse_join(nwk)


class Msg:
    def __init__(self, t, sender, profile, cluster, src_ep, dst_ep, data, lqi, rssi):
        self.t, self.sender, self.profile, self.cluster = t, sender, profile, cluster
        self.nwk = int(sender.nwk)  # at the time of delivery
        self.src_ep, self.dst_ep, self.data = src_ep, dst_ep, data
        self.lqi, self.rssi = lqi, rssi

    @property
    def row(self):
        return (int(self.sender.nwk), self.cluster, self.src_ep, self.dst_ep, self.data)

    def __repr__(self):
        return "Msg(nwk=0x%04x cluster=0x%04x %d->%d %s)" % (
            self.sender.nwk, self.cluster, self.src_ep, self.dst_ep, self.data.hex())


def app_config(device=None, network=None):
    conf = {"device": dict({"path": PORT}, **(device or {})), "database_path": None}
    if network is not None:
        conf["network"] = network
    return ControllerApplication.SCHEMA(conf)


def make_app(**kw):
    app = App(app_config(**kw))
    app.pass_on = app.pass_join = False
    return app


async def started_app(world, auto_form=False, **kw):
    app = make_app(**kw)
    await app.startup(auto_form)
    del world.ncp.log[:], world.ncp.noise[:]
    return app


async def new_api(app=None, **device):
    return await API.new(app, SCHEMA_DEVICE(dict({"path": PORT}, **device)))


def scenario(main, ncp=None, max_time=5000.0, max_iterations=400000):
    """main(loop, world) on a virtual loop with the fake serial port in place."""

    async def go(loop):
        with sim.World(loop, ncp) as world:
            return await main(loop, world)

    return vloop.run(go, max_time, max_iterations)


def add_device(app, ieee, nwk):
    return app.add_device(zt.EUI64(ieee), zt.NWK(nwk))


async def settle(seconds=0.05):
    await asyncio.sleep(seconds)


def loop_errors(loop):
    """Exceptions that escaped into the event loop."""
    return [c for c in loop.contexts if c.get("exception") is not None
            and not isinstance(c["exception"], asyncio.CancelledError)]
