"""Audit of an application definition (property C05)."""
from punx import finding, utils
from punx.validations import application_definition


def audit(validator, item):
    name = str(application_definition.first_value(item.h5_object["definition"]))
    if name not in validator.manager.classes:
        yield item.h5_address, "known NXDL", finding.ERROR
        return
    yield item.h5_address, "known NXDL", finding.OK
    definition = validator.manager.classes[name]
    yield item.h5_address, "NeXus application definition", finding.TODO
    if definition.category not in ("applications", "contributed_definitions"):
        yield item.h5_address, "NeXus application definition", finding.ERROR
        return
    yield item.h5_address, "NeXus application definition", finding.OK
    if len(definition.groups) > 0:
        entry = list(definition.groups.values())[0]
        for field, spec in entry.fields.items():
            for x in required_field(item, field, spec):
                yield x


def required_field(item, field, spec):
    where = item.child_address(field)
    if utils.isHdf5Child(item.h5_object, field):
        yield where, "NXDL field", finding.OK
        if len(spec.enumerations) > 0:
            value = application_definition.first_value(item.h5_object[field])
            if isinstance(value, str) and value in spec.enumerations:
                yield where, "NXDL field enumerations", finding.OK
            else:
                yield where, "NXDL field enumerations", finding.ERROR
    else:
        yield where, "NXDL field", finding.ERROR
